----------------------------- MODULE Trace_Lang -----------------------------
(***************************************************************************)
(* Recorded language conversions (C27).                                    *)
(*   conv  x: codes, r: results ("" for none)                              *)
(*   other x: strings as UTF-8 that are no code of two or three letters    *)
(***************************************************************************)
EXTENDS Trace, Lang
Plain(b) == Len(b) \in {2, 3} /\ \A i \in 1 .. Len(b) : b[i] \in 97 .. 122
TSteps(h) == 1
TStart(h) == 0
TApply(h, i, a) ==
  Judge(IF h.st /= "ok" THEN "panic"
        ELSE IF Len(h.x) /= Len(h.r) THEN "record"
        ELSE IF h.k = "conv" THEN
          (IF \A j \in 1 .. Len(h.x) : h.r[j] = Convert(h.x[j]) THEN "ok" ELSE "wrong conversion")
        ELSE IF h.k = "other" THEN
          (IF \A j \in 1 .. Len(h.x) : h.r[j] = "" /\ ~ Plain(h.x[j]) THEN "ok" ELSE "converts something else")
        ELSE "unknown record")
=============================================================================
