---------------------------- MODULE Trace_Reader ----------------------------
(***************************************************************************)
(* Recorded packet reader (C24).                                           *)
(*   d       input                                                         *)
(*   faults  [position, error/"eof"]   (and how it was cut, for the reader *)
(*           of the record only)                                           *)
(*   res     results of the reads: kind "pkt" n p, "eof", "panic", error   *)
(***************************************************************************)
EXTENDS Trace, Reader

TSteps(h) == Len(h.res)
TStart(h) == [pos |-> 0, nf |-> 0]
TApply(h, i, a) ==
  LET r == ReadOne(h.d, h.faults, a.pos, a.nf)
      o == h.res[i]
  IN  [ s |-> [pos |-> r.pos, nf |-> r.nf],
        v |-> IF o.kind /= r.kind THEN "wrong result: " \o o.kind
              ELSE IF o.kind = "pkt" /\ (o.n /= Size \/ o.p /= r.pkt) THEN "wrong packet"
              ELSE "ok" ]
=============================================================================
