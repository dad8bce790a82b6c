----------------------------- MODULE Trace_Print ----------------------------
(***************************************************************************)
(* Recorded printed packets (C31).                                         *)
(*   p      first 12 bytes of the packet                                   *)
(*   shown  << name, value >> pairs of the printed form, two renderings    *)
(*   alone  pairs of the adaptation field printed alone                    *)
(*   pcr    clock shown by each (BigNat digits; << -1 >>: none)            *)
(***************************************************************************)
EXTENDS Trace, Print, Clock

Says(shown, want) ==
  LET names == { x[1] : x \in want }
      said == { << shown[i][1], shown[i][2] >> : i \in { j \in 1 .. Len(shown) : shown[j][1] \in names } }
  IN  said = want

Verdict(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF \E i \in 1 .. Len(h.shown) : ~ Says(h.shown[i], HeadPairs(h.p)) THEN "wrong header field shown"
  ELSE IF \E i \in 1 .. Len(h.shown) : ~ Says(h.shown[i], AfPairs(h.p)) THEN "wrong adaptation field shown"
  ELSE IF HasAf(h.p) = 1 /\ ~ Says(h.alone, AfPairs(h.p)) THEN "wrong adaptation field shown alone"
  ELSE IF HasPcr(h.p) /\ \E i \in 1 .. 3 : h.pcr[i] /= PcrOf(Mid(h.p, 7, 6)) THEN "wrong clock shown"
  ELSE "ok"

TSteps(h) == 1
TStart(h) == 0
TApply(h, i, a) == Judge(Verdict(h))
=============================================================================
