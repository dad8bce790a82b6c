---------------------------- MODULE Trace_Codes -----------------------------
(***************************************************************************)
(* Recorded use of named constants (C29).                                  *)
(*   code   f field, x meaning, r value of the constant                    *)
(*   put    sys, m meanings: bytes out of the descriptor written with the  *)
(*          constants                                                      *)
(*   pid    x, r;   packets  null, fill;   clock  x, r (BigNat digits)     *)
(***************************************************************************)
EXTENDS Trace, Codes

ClockOf == ("PCR per us" :> << 27 >>) @@ ("PCR per ms" :> << 7000, 2 >>) @@ ("PCR per s" :> << 0, 2700 >>)
           @@ ("PCR none" :> << 7600, 8037, 5769, 2 >>) @@ ("PCR max" :> << 7599, 8037, 5769, 2 >>)
           @@ ("PTS per ms" :> << 90 >>) @@ ("PTS none" :> << 4592, 8993, 85 >>) @@ ("PTS max" :> << 4591, 8993, 85 >>)

Verdict(h) ==
  CASE h.k = "code" -> IF h.r = Code[h.f][h.x] THEN "ok" ELSE "wrong code: " \o h.f \o " " \o h.x
    [] h.k = "put" -> IF h.st /= "ok" THEN "panic"
                      ELSE IF h.out = EncDesc(Delivery(h.sys, h.m)) THEN "ok" ELSE "wrong descriptor"
    [] h.k = "pid" -> IF h.r = PidOf[h.x] THEN "ok" ELSE "wrong identifier: " \o h.x
    [] h.k = "packets" -> IF h.null = NullPacket /\ h.fill = FillPacket /\ h.size = 188 THEN "ok" ELSE "wrong packet"
    [] h.k = "clock" -> IF h.r = ClockOf[h.x] THEN "ok" ELSE "wrong clock: " \o h.x

TSteps(h) == 1
TStart(h) == 0
TApply(h, i, a) == Judge(Verdict(h))
=============================================================================
