----------------------------- MODULE Trace_Words ----------------------------
(***************************************************************************)
(* Recorded numbers in byte arrays and packed fields (C32).                *)
(*   words   a array, ops [offset, bytes, hi, lo, get]: get = 1 a number   *)
(*           read (hi, lo the result), get = 0 written; out arrays after   *)
(*           each                                                          *)
(*   packed  top, vs, ws: r                                                *)
(***************************************************************************)
EXTENDS Trace, Words

TSteps(h) == IF h.k = "words" THEN Len(h.ops) ELSE 1
TStart(h) == IF h.k = "words" THEN h.a ELSE <<>>
TApply(h, i, p) ==
  IF h.k = "packed"
  THEN Judge(IF h.st /= "ok" THEN "panic" ELSE IF h.r = Packed(h.top, h.vs, h.ws) THEN "ok" ELSE "wrong fields")
  ELSE LET o == h.ops[i]
           want == IF o[5] = 1 THEN p ELSE Put(p, o[1], o[2], << o[3], o[4] >>)
       IN  [ s |-> want,
             v |-> IF h.st[i] /= "ok" THEN "panic"
                   ELSE IF o[5] = 1 /\ << o[3], o[4] >> /= Get(p, o[1], o[2]) THEN "wrong number"
                   ELSE IF h.out[i] /= want THEN "wrong bytes"
                   ELSE "ok" ]
=============================================================================
