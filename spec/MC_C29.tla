------------------------------- MODULE MC_C29 -------------------------------
(***************************************************************************)
(* All transponders that can be described with the named codes: the codes  *)
(* fit their fields, different meanings have different codes, and the      *)
(* descriptor tells the meanings back.                                     *)
(***************************************************************************)
EXTENDS Codes

VARIABLE m
Sys == {"satellite", "cable", "terrestrial"}
Fields(system) ==
  CASE system = "satellite" -> << "position", "polarisation", "rolloff", "s2", "satellite", "fec" >>
    [] system = "cable" -> << "outer", "cable", "fec" >>
    [] system = "terrestrial" -> << "bandwidth", "terrestrial", "hierarchy", "rate", "rate", "guard", "mode" >>
At(system) ==
  CASE system = "satellite" -> << 4, 5, 6, 7, 8, 10 >>
    [] system = "cable" -> << 3, 4, 6 >>
    [] system = "terrestrial" -> << 3, 7, 8, 9, 10, 11, 12 >>
Meanings(f) == IF f = "s2" THEN {0, 1} ELSE DOMAIN Code[f]
MeantBy(f, x) == IF f = "s2" THEN x ELSE Code[f][x]

Init == \E y \in Sys : m = << y >>
Next == /\ Len(m) <= Len(Fields(m[1]))
        /\ \E x \in Meanings(Fields(m[1])[Len(m)]) : m' = Append(m, x)
Complete == Len(m) = 1 + Len(Fields(m[1]))

ASSUME Fit == \A f \in DOMAIN Code : \A x \in DOMAIN Code[f] : Code[f][x] < 2 ^ Width[f]
ASSUME Distinct == \A f \in DOMAIN Code : \A x, y \in DOMAIN Code[f] : Code[f][x] = Code[f][y] => x = y
\* what a receiver reads is what was meant
Told == Complete =>
  LET d == Delivery(m[1], Tail(m))
      r == DecLoop(EncDesc(d))
  IN  /\ r = << d >>
      /\ \A i \in 1 .. Len(Fields(m[1])) : r[1].n[At(m[1])[i]] = MeantBy(Fields(m[1])[i], m[i + 1])
ASSUME PidsFit == \A x \in DOMAIN PidOf : x = "none" \/ PidOf[x] < 8192
ASSUME PacketsFit == Len(NullPacket) = 188 /\ Len(FillPacket) = 188
=============================================================================
