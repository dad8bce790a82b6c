---------------------------- MODULE Trace_Drain -----------------------------
(***************************************************************************)
(* Recorded byte-stream adapter (C25): src: items [kind, bytes], res: the  *)
(* reads: n asked for, kind "ok"/"panic"/error, b bytes given.             *)
(***************************************************************************)
EXTENDS Trace, Drain
TSteps(h) == Len(h.res)
TStart(h) == << 0, 0 >>
TApply(h, i, a) ==
  LET o == h.res[i]
      j == DrainRead(h.src, a[1], a[2], o.n, o.kind, o.b)
  IN  [s |-> j.st, v |-> IF j.ok THEN "ok" ELSE "read of " \o ToString(o.n) \o " bytes: " \o o.kind]
=============================================================================
