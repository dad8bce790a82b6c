---------------------------- MODULE Trace_Class -----------------------------
(***************************************************************************)
(* Recorded classifications (C26): q: [type, tag, tag, ...], r: class      *)
(***************************************************************************)
EXTENDS Trace, StreamClass
TSteps(h) == 1
TStart(h) == 0
TApply(h, i, a) ==
  Judge(IF h.st /= "ok" THEN "panic"
        ELSE IF Len(h.q) /= Len(h.r) THEN "record"
        ELSE IF \A j \in 1 .. Len(h.q) : h.r[j] = Class(h.q[j][1], Tail(h.q[j])) THEN "ok"
        ELSE "wrong class")
=============================================================================
