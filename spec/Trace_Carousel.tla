--------------------------- MODULE Trace_Carousel ---------------------------
(***************************************************************************)
(* Recorded receptions of repeated tables (C35).                           *)
(*   d      the bytes received, from the place of joining on, disturbed    *)
(*   from   where in d the last, undisturbed repetition begins             *)
(*   read   number of packets read                                         *)
(*   lines  pid, all tables sent on it, those of the last repetition       *)
(*   ev     tables completed: number of the packet, line, kind, table      *)
(* One step per packet and one for the end.                                *)
(***************************************************************************)
EXTENDS Trace, Carousel, Receiver, Packetizer, Reader

TSteps(h) == h.read + 1
TStart(h) == [pos |-> 0, hit |-> FALSE, ne |-> 0,
              rx |-> [i \in 1 .. Len(h.lines) |-> RxInit],
              col |-> [i \in 1 .. Len(h.lines) |-> <<>>],
              held |-> [i \in 1 .. Len(h.lines) |-> <<>>]]

LineOf(h, pid) == LET r == { j \in 1 .. Len(h.lines) : h.lines[j].pid = pid } IN IF r = {} THEN 0 ELSE CHOOSE j \in r : TRUE

\* Events of packet i in the record, behind the first ne
EventsAt(h, i, ne) ==
  LET r == { k \in ne + 1 .. Min2(ne + 4, Len(h.ev)) : h.ev[k].i = i } IN [k \in 1 .. Cardinality(r) |-> h.ev[ne + k]]

WasSent(h, j, x) == \E k \in 1 .. Len(h.lines[j].sent) : h.lines[j].sent[k].kind = x.kind /\ h.lines[j].sent[k].t = x.t

OnePacket(h, i, a) ==
  LET r    == ReadOne(h.d, <<>>, a.pos, 0)
      j    == IF r.kind = "pkt" THEN LineOf(h, 256 * (r.pkt[2] % 32) + r.pkt[3]) ELSE 0
      o    == IF j = 0 THEN [rx |-> RxInit, done |-> <<>>] ELSE RxStep(a.rx[j], Unpack(r.pkt))
      c    == IF j = 0 THEN [col |-> <<>>, new |-> <<>>] ELSE CollectAll(a.col[j], SelectSeq(o.done, CrcOk))
      ev   == EventsAt(h, i, a.ne)
      n    == Len(ev)
  IN  [ s |-> [ pos  |-> r.pos,
                hit  |-> a.hit \/ r.pos - PacketSize = h.from,
                ne   |-> a.ne + n,
                rx   |-> IF j = 0 THEN a.rx ELSE [a.rx EXCEPT ![j] = o.rx],
                col  |-> IF j = 0 THEN a.col ELSE [a.col EXCEPT ![j] = c.col],
                held |-> IF j = 0 \/ c.new = <<>> THEN a.held ELSE [a.held EXCEPT ![j] = (c.new[1].key :> c.new[1].t) @@ @] ],
        v |-> IF h.st /= "ok" THEN "panic"
              ELSE IF r.kind /= "pkt" THEN "more packets than received"
              ELSE IF n /= Len(c.new) THEN "a table completed too early, too late or not at all"
              ELSE IF \E k \in 1 .. n : ev[k].line /= j \/ ev[k].kind /= c.new[k].kind \/ ev[k].t /= c.new[k].t THEN "another table than received"
              ELSE IF \E k \in 1 .. n : ~ WasSent(h, j, ev[k]) THEN "a table that was not sent"
              ELSE "ok" ]

AtEnd(h, a) ==
  Judge(IF h.st /= "ok" THEN "panic"
        ELSE IF ReadOne(h.d, <<>>, a.pos, 0).kind /= "eof" THEN "packets not read"
        ELSE IF a.ne /= Len(h.ev) THEN "input: events left over"
        ELSE IF a.hit /\ \E j \in 1 .. Len(h.lines) : \E k \in 1 .. Len(h.lines[j].final) :
                  LET f == h.lines[j].final[k] IN ~ \E key \in DOMAIN a.held[j] : KindOf(key[1]) = f.kind /\ a.held[j][key] = f.t
             THEN "the current table is not held"
        ELSE "ok")

TApply(h, i, a) == IF i <= h.read THEN OnePacket(h, i, a) ELSE AtEnd(h, a)
=============================================================================
