---------------------------- MODULE MC_Sections -----------------------------
(***************************************************************************)
(* Sender, channel and receiver of sections.                               *)
(*                                                                         *)
(* The sender cuts the sections Sec[1], Sec[2], ... into packets in every  *)
(* legal way: any payload size of Caps (in a real packet the adaptation    *)
(* field takes the rest), sections may follow one another in a packet,     *)
(* stuffing after any section, packets without payload in between. Only    *)
(* restriction: no packet completes two sections.                          *)
(*                                                                         *)
(* The channel may lose, repeat, delay by one or damage up to MaxFaults    *)
(* packets.                                                                *)
(***************************************************************************)
EXTENDS Receiver

CONSTANTS Bodies,     \* body bytes of the sections, e.g. << <<1>>, <<2, 3>> >>
          Caps,       \* payload sizes
          MaxIdle,    \* packets without payload
          MaxFaults

Mk(i) == LET n == Len(Bodies[i])
             h == << 64 + i, 176, n + 4 >> \o Bodies[i]
         IN  h \o BW32(Crc32(h))
Sec == [i \in 1 .. Len(Bodies) |-> Mk(i)]
NSec == Len(Sec)

VARIABLES cur, off,      \* sender: section and number of its bytes already sent
          cc,            \* sender: counter of the next packet
          held,          \* channel: packet delayed, << >> if none
          faults, idle,  \* budget used
          dirty,         \* a packet of the section being sent did not arrive intact
          rx,            \* receiver
          acc,           \* sections accepted by the last packet delivered (checksum right)
          due            \* sections the last packet had to complete
vars == << cur, off, cc, held, faults, idle, dirty, rx, acc, due >>

Init == /\ cur = 1 /\ off = 0 /\ cc \in {0, CcMod - 1} /\ held = <<>>
        /\ faults = 0 /\ idle = 0 /\ dirty = FALSE
        /\ rx = RxInit /\ acc = <<>> /\ due = <<>>

Fill(b, n) == b \o Rep(255, n - Len(b))

\* Ways to go on with section i in room bytes: bytes, next position, sections completed
RECURSIVE Tails(_, _)
Tails(i, room) ==
  IF i > NSec \/ room = 0 THEN { [pay |-> Rep(255, room), cur |-> i, off |-> 0, done |-> <<>>] }
  ELSE IF Len(Sec[i]) > room
       THEN { [pay |-> Take(Sec[i], room), cur |-> i, off |-> room, done |-> <<>>] }
  ELSE { [pay |-> Fill(Sec[i], room), cur |-> i + 1, off |-> 0, done |-> << i >>] }
       \cup { [pay |-> Sec[i] \o x.pay, cur |-> x.cur, off |-> x.off, done |-> << i >> \o x.done] :
              x \in Tails(i + 1, room - Len(Sec[i])) }

Rest == Drop(Sec[cur], off)

\* All packets the sender may send next: with unit start ...
Starts(cap) ==
  LET r == IF off = 0 THEN <<>> ELSE Rest
      n == IF off = 0 THEN cur ELSE cur + 1
  IN  IF n > NSec \/ cap < Len(r) + 2 THEN {}
      ELSE { [ pkt  |-> [kind |-> "pay", pusi |-> TRUE, cc |-> cc, pay |-> << Len(r) >> \o r \o x.pay],
               cur  |-> x.cur, off |-> x.off, start |-> TRUE,
               done |-> (IF off = 0 THEN <<>> ELSE << cur >>) \o x.done ] : x \in Tails(n, cap - 1 - Len(r)) }

\* ... and without
Conts(cap) ==
  IF off = 0 \/ cur > NSec THEN {}
  ELSE LET r == Rest IN
       { [ pkt  |-> [kind |-> "pay", pusi |-> FALSE, cc |-> cc, pay |-> IF Len(r) > cap THEN Take(r, cap) ELSE Fill(r, cap)],
           cur  |-> IF Len(r) > cap THEN cur ELSE cur + 1,
           off  |-> IF Len(r) > cap THEN off + cap ELSE 0,
           start |-> FALSE,
           done |-> IF Len(r) > cap THEN <<>> ELSE << cur >> ] }

Sends == UNION { { e \in Starts(c) \cup Conts(c) : Len(e.done) <= 1 } : c \in Caps }

Advance(e) == cur' = e.cur /\ off' = e.off /\ cc' = (cc + 1) % CcMod

Accepted(o) == SelectSeq(o.done, CrcOk)

\* Deliver packets ps one after the other
RECURSIVE Feed(_, _)
Feed(r, ps) ==
  IF ps = <<>> THEN [rx |-> r, acc |-> <<>>]
  ELSE LET o == RxStep(r, Head(ps))
           f == Feed(o.rx, Tail(ps))
       IN  [rx |-> f.rx, acc |-> Accepted(o) \o f.acc]

Deliver(ps) == LET f == Feed(rx, ps) IN rx' = f.rx /\ acc' = f.acc

Good ==
  /\ held = <<>>
  /\ \E e \in Sends :
       /\ Advance(e)
       /\ Deliver(<< e.pkt >>)
       \* a section is due if all its packets arrived; the one completed here
       \* may end (dirty counts) or also begin (always due) in this packet
       /\ due' = IF e.done = <<>> THEN <<>>
                 ELSE IF dirty /\ off > 0 /\ e.done[1] = cur THEN <<>> ELSE e.done
       /\ dirty' = IF e.start THEN FALSE ELSE (dirty /\ e.off > 0)
  /\ UNCHANGED << held, faults, idle >>

Nothing ==
  /\ idle < MaxIdle /\ idle' = idle + 1
  /\ Deliver(<< [kind |-> "none", pusi |-> FALSE, cc |-> cc, pay |-> <<>>] >>)
  /\ due' = <<>>
  /\ UNCHANGED << cur, off, cc, held, faults, dirty >>

Damage(p) ==
  { [p EXCEPT !.kind = "bad", !.pay = <<>>] }
  \cup { [p EXCEPT !.cc = (@ + 1) % CcMod], [p EXCEPT !.pusi = ~ @] }
  \cup { [p EXCEPT !.pay[i] = x] : i \in 1 .. Len(p.pay), x \in {0, 255} }

Bad ==
  /\ faults < MaxFaults /\ faults' = faults + 1
  /\ held = <<>>
  /\ \E e \in Sends :
       /\ Advance(e)
       /\ dirty' = (e.off > 0)
       /\ due' = <<>>
       /\ \/ held' = <<>> /\ rx' = rx /\ acc' = <<>>                       \* lost
          \/ held' = <<>> /\ Deliver(<< e.pkt, e.pkt >>)                   \* repeated
          \/ held' = << e.pkt >> /\ rx' = rx /\ acc' = <<>>                \* delayed
          \/ held' = <<>> /\ \E d \in Damage(e.pkt) : Deliver(<< d >>)     \* damaged
  /\ UNCHANGED idle

Late ==
  /\ held /= <<>>
  /\ \/ \E e \in Sends :
          /\ Advance(e)
          /\ dirty' = (e.off > 0)
          /\ Deliver(<< e.pkt >> \o held)
     \/ /\ Sends = {} /\ Deliver(held) /\ UNCHANGED << cur, off, cc, dirty >>
  /\ due' = <<>>
  /\ held' = <<>>
  /\ UNCHANGED << faults, idle >>

Next == Good \/ Nothing \/ Bad \/ Late
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C02: nothing but sections that were sent is accepted.
Safe == \A i \in 1 .. Len(acc) : \E k \in 1 .. NSec : acc[i] = Sec[k]

\* C01, C02: a section all of whose packets arrive intact and in order is
\* delivered with its last packet.
Delivered == \A i \in 1 .. Len(due) : \E k \in 1 .. Len(acc) : acc[k] = Sec[due[i]]

\* C01: without faults nothing else is delivered.
Exact == (MaxFaults = 0) => Len(acc) = Len(due)

\* C02: memory
Bounded == Len(rx.buf) <= 4098 + 184
=============================================================================
