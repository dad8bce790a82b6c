----------------------------- MODULE Trace_List -----------------------------
(***************************************************************************)
(* Recorded use of descriptor lists (C30).                                 *)
(*   ops   operations (DescList)                                           *)
(*   seen  after each operation, of every list: d contents through         *)
(*         iteration, g contents through get(0), get(1), ..., len, empty,  *)
(*         size, ret (returned by writing), out (bytes written), past      *)
(*         (get beyond the end gave nothing)                               *)
(***************************************************************************)
EXTENDS Trace, DescList

Same(want, o) ==
  LET w == EncLoop(want) IN
  IF o.d /= want THEN "wrong contents"
  ELSE IF o.g /= want THEN "wrong contents by index"
  ELSE IF ~ o.past THEN "something beyond the end"
  ELSE IF o.len /= Len(want) \/ o.empty /= (want = <<>>) THEN "wrong number"
  ELSE IF o.out /= w THEN "written wrongly"
  ELSE IF o.ret /= Len(w) \/ o.size /= Len(w) THEN "wrong size"
  ELSE "ok"

TSteps(h) == Len(h.ops)
TStart(h) == << <<>>, <<>>, <<>> >>
TApply(h, i, a) ==
  LET o == h.ops[i]
      f == Do(a, o)
      \* copies of own descriptors are what they are found to be
      g == IF h.st[i] = "ok" THEN h.seen[i][o.a].d ELSE <<>>
      w == IF Len(g) /= Len(f[o.a]) THEN f
           ELSE [f EXCEPT ![o.a] = [j \in 1 .. Len(g) |-> IF j \in Copies(f, o) THEN Adopt(@[j], g[j]) ELSE @[j]]]
      bad == { j \in 1 .. Len(w) : Same(w[j], h.seen[i][j]) /= "ok" }
  IN  [ s |-> w,
        v |-> IF ~ Allowed(a, h.ops[i]) THEN "not an operation of the specification"
              ELSE IF h.st[i] /= "ok" THEN "panic"
              ELSE IF bad = {} THEN "ok"
              ELSE h.ops[i].op \o ": " \o Same(w[CHOOSE j \in bad : TRUE], h.seen[i][CHOOSE j \in bad : TRUE]) ]
=============================================================================
