---------------------------- MODULE Trace_Total -----------------------------
(***************************************************************************)
(* Recorded hostile input (C03): every call of a batch has to come back.   *)
(***************************************************************************)
EXTENDS Trace
TSteps(h) == 1
TStart(h) == 0
TApply(h, i, a) == Judge(IF h.n > 0 /\ h.back = h.n THEN "ok" ELSE "panic: " \o h.op)
=============================================================================
