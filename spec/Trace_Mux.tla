----------------------------- MODULE Trace_Mux ------------------------------
(***************************************************************************)
(* Recorded histories of a section accumulator (C01, C02).                 *)
(*                                                                         *)
(*   pk    packets fed: 188 bytes, or the short form  b0 b1 b2 b3 payload  *)
(*         of a packet whose adaptation field fills the space between      *)
(*   obs   after each packet: st "ok"/"panic", c complete, ok check(),     *)
(*         n bytes held, b the section shown (if complete)                 *)
(*   sent  sections sent, if the history is an intact stream ("intact")    *)
(***************************************************************************)
EXTENDS Trace, TsPacket, Receiver

Pkt(x) ==
  IF Len(x) = PacketSize THEN Unpack(x)
  ELSE [kind |-> "pay", pusi |-> Pusi(x) = 1, cc |-> Cc(x), pay |-> Drop(x, 4)]

MaxHeld == 4098 + 184

None == [c |-> FALSE, b |-> <<>>]
Shown(o) == [c |-> o.c, b |-> o.b]
Accepted(o) == o.ok

Verdict(rx, r, prev, o, intact) ==
  IF o.st /= "ok" THEN "panic"
  ELSE IF o.n > MaxHeld THEN "memory"
  ELSE IF Accepted(o) /\ ~ (SecLen(o.b) = Len(o.b) /\ CrcOk(o.b)) THEN "accepted section is not one with a right checksum"
  ELSE IF rx.loose \/ r.rx.loose THEN "ok"
  ELSE IF ~ intact /\ (rx.odd \/ r.rx.odd) THEN "ok"
  ELSE IF r.same THEN (IF Shown(o) = prev THEN "ok" ELSE "changed by a packet without payload")
  ELSE IF r.done /= <<>> THEN
    ( IF ~ o.c THEN "section not reported"
      ELSE IF o.b /= r.done[1] THEN "wrong section reported"
      ELSE IF Len(o.b) >= 8 /\ (o.ok /= CrcOk(o.b)) THEN "wrong checksum verdict"
      ELSE "ok" )
  ELSE IF r.stale THEN
    ( IF Accepted(o) /\ Shown(o) /= prev THEN "section from nowhere" ELSE "ok" )
  ELSE IF o.c THEN "reported before it is complete"
  ELSE "ok"

TSteps(h) == Len(h.pk)
TStart(h) == [rx |-> RxInit, prev |-> None, got |-> 0]

TApply(h, i, a) ==
  LET r == RxStep(a.rx, Pkt(h.pk[i]))
      o == h.obs[i]
      g == a.got + Len(r.done)
      \* the harness claims that this stream is intact: then the specified
      \* receiver must find just the sections that were sent
      legal == ~ h.intact \/ ( /\ Len(r.done) <= 1
                               /\ g <= Len(h.sent)
                               /\ (r.done /= <<>> => r.done[1] = h.sent[g])
                               /\ (i = Len(h.pk) => g = Len(h.sent)) )
      w == Verdict(a.rx, r, a.prev, o, h.intact)
  IN  [ s |-> [rx |-> r.rx, prev |-> Shown(o), got |-> g],
        v |-> IF ~ legal THEN "input: not an intact stream" ELSE w ]
=============================================================================
