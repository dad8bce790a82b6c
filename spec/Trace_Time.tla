----------------------------- MODULE Trace_Time -----------------------------
(***************************************************************************)
(* Recorded conversions (C20), many of one kind in a record: in x, out r.  *)
(* Coded values are recorded as big-endian bytes, points in time as        *)
(* << day, second >>.                                                      *)
(***************************************************************************)
EXTENDS Trace, DvbTime

Right(k, x, r) ==
  CASE k = "bcd8"    -> r = BcdSeq(x, 1)
    [] k = "bcd16"   -> r = BcdSeq(x, 2)
    [] k = "bcd32"   -> r = BcdSeq(x, 4)
    [] k = "unbcd"   -> BcdSeqOk(x) => r = UnBcdSeq(x)
    [] k = "hm"      -> r = Hm(x)
    [] k = "unhm"    -> BcdSeqOk(x) => r = UnHm(x)
    [] k = "hms"     -> r = Hms(x)
    [] k = "unhms"   -> BcdSeqOk(x) => r = UnHms(x)
    [] k = "mjd"     -> r = Mjd(x[1])
    [] k = "unmjd"   -> r = << UnMjd(x), 0 >>

VBatch(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF Len(h.x) /= Len(h.r) THEN "record"
  ELSE IF \A i \in 1 .. Len(h.x) : Right(h.k, h.x[i], h.r[i]) THEN "ok"
  ELSE "wrong conversion"

TSteps(h) == 1
TStart(h) == 0
TApply(h, i, a) == Judge(VBatch(h))
=============================================================================
