----------------------------- MODULE Trace_Crc ------------------------------
(***************************************************************************)
(* Recorded checksum calls (C04).                                          *)
(*   crc   d: bytes, w: crc32b(d) as << high, low >>                       *)
(*   fin   d: buffer, b, n: buffer and size after finalize(), ok: check(), *)
(*         b2, n2: after finalizing again                                  *)
(*   ver   b: section, e: alterations [[index, value], ...], ok: check()   *)
(*         of the section after each                                       *)
(*   edit  d: buffer, finalised, bytes x put behind, then for each         *)
(*         alteration of e: altered, finalised again; o: c, check()        *)
(*         before, ok, after that, b, n                                    *)
(*   chk   b: buffer, n: size, ok: check()                                 *)
(*   eq    a, b: [b, n], r: equal                                          *)
(***************************************************************************)
EXTENDS Trace, Section

VCrc(h) == IF h.st /= "ok" THEN "panic" ELSE IF h.w = Crc32(h.d) THEN "ok" ELSE "wrong checksum"

VFin(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF h.b /= Seal(h.d) \/ h.n /= Len(h.d) + 4 THEN "wrong section"
  ELSE IF ~ h.ok THEN "does not verify"
  ELSE IF h.b2 /= h.b \/ h.n2 /= h.n THEN "changed by finalising again"
  ELSE "ok"

RECURSIVE Patch(_, _)
Patch(p, d) == IF d = <<>> THEN p ELSE Patch([p EXCEPT ![d[1][1]] = d[1][2]], Tail(d))

VVer(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF Len(h.e) /= Len(h.ok) THEN "record"
  ELSE IF \A i \in 1 .. Len(h.e) : h.ok[i] = CrcOk(Patch(h.b, h.e[i])) THEN "ok"
  ELSE "wrong verdict"

VEdit(h, i, a) ==
  LET was == Patch(a, h.e[i])
      now == Seal(Take(was, Len(was) - 4))
      o   == h.o[i]
  IN  [ s |-> now,
        v |-> IF o.c /= CrcOk(was) THEN "wrong verdict"
              ELSE IF o.n /= Len(now) \/ Take(o.b, o.n) /= now THEN "wrong section after a change"
              ELSE IF ~ o.ok THEN "does not verify"
              ELSE "ok" ]

Complete(x) == x.n >= 8 /\ Len(x.b) >= x.n
VChk(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF h.n \in 1 .. 7 THEN "ok"      \* too short for a checksum: no claim
  ELSE IF h.ok = (Complete(h) /\ CrcOk(Take(h.b, h.n))) THEN "ok" ELSE "wrong verdict"

Tail4(x) == Mid(x.b, x.n - 3, 4)
VEq(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF Complete(h.a) /\ Complete(h.b)
       THEN (IF h.r = (h.a.n = h.b.n /\ Tail4(h.a) = Tail4(h.b)) THEN "ok" ELSE "wrong comparison")
  ELSE IF (Complete(h.a) \/ Complete(h.b)) /\ h.r THEN "complete equals incomplete"
  ELSE "ok"

TSteps(h) == IF h.k = "edit" /\ h.st = "ok" THEN Len(h.e) ELSE 1
TStart(h) == IF h.k = "edit" THEN Seal(h.d) ELSE <<>>
TApply(h, i, a) ==
  IF h.k = "edit" /\ h.st = "ok" THEN VEdit(h, i, a)
  ELSE Judge(CASE h.k = "crc" -> VCrc(h)
          [] h.k = "fin" -> VFin(h)
          [] h.k = "ver" -> VVer(h)
          [] h.k = "edit" -> "panic"
          [] h.k = "chk" -> VChk(h)
          [] h.k = "eq" -> VEq(h)
          [] OTHER -> "unknown record")
=============================================================================
