----------------------------- MODULE Trace_Pes ------------------------------
(***************************************************************************)
(* Recorded PES calls (C23).                                               *)
(*   hdr   h: header bytes, r: [prefix, syntax, length, offset, pts flag,  *)
(*         dts flag], pts, dts: as in Pes.tla                              *)
(*   delta a, b, r (BigNat)     ms   a, r                                  *)
(***************************************************************************)
EXTENDS Trace, Clock, Pes

B(x) == IF x THEN 1 ELSE 0
VHdr(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF h.r /= << B(StartCode(h.h)), B(FullSyntax(h.h)), PesLength(h.h), PesPayload(h.h),
                    B(PtsFlag(h.h)), B(DtsFlag(h.h)) >> THEN "wrong field"
  ELSE IF h.pts /= Pts(h.h) THEN "wrong PTS"
  ELSE IF h.dts /= Dts(h.h) THEN "wrong DTS"
  ELSE "ok"

TSteps(h) == 1
TStart(h) == 0
TApply(h, i, a) ==
  Judge(CASE h.k = "hdr" -> VHdr(h)
          [] h.k = "delta" -> IF h.st /= "ok" THEN "panic"
                              ELSE IF IsTicks(h.r, h.a, h.b, PtsPeriod) THEN "ok" ELSE "wrong difference"
          [] h.k = "ms" -> IF h.st /= "ok" THEN "panic"
                           ELSE IF BIsQuot(h.r, h.a, BNat(90)) THEN "ok" ELSE "wrong quotient"
          [] OTHER -> "unknown record")
=============================================================================
