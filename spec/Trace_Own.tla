------------------------------ MODULE Trace_Own -----------------------------
(***************************************************************************)
(* Recorded tables of the program's own (C33).                             *)
(*   new   tid, n, ver: header of a new section; b: its bytes              *)
(*   own   secs (each tid, n, ver, add), w: last word, pre: what the       *)
(*         output held, pid, cc; out: the output afterwards, cc2           *)
(***************************************************************************)
EXTENDS Trace, OwnTable

VOwn(h) ==
  LET ls == [i \in 1 .. Len(h.secs) |-> Begun(h.secs[i])]
      e == BytesOf([i \in 1 .. Len(ls) |-> Sent(ls, h.w, i)], h.pid, h.cc)
  IN  IF h.out /= h.pre \o e THEN "not the sections of the table"
      ELSE IF h.cc2 /= (h.cc + (Len(e) \div PacketSize)) % 16 THEN "wrong counter"
      ELSE "ok"

TSteps(h) == 1
TStart(h) == 0
TApply(h, i, a) ==
  Judge(IF h.st /= "ok" THEN "panic"
        ELSE IF h.k = "new" THEN (IF h.b = NewSection(h.tid, h.n, h.ver) THEN "ok" ELSE "wrong header")
        ELSE VOwn(h))
=============================================================================
