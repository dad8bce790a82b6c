------------------------------ MODULE DescList ------------------------------
(***************************************************************************)
(* Descriptor lists in the hands of a user: filled, read into, copied and  *)
(* edited in place. The state is a sequence of lists, each a sequence of   *)
(* descriptors. Lists are values: a copy is not changed with its original. *)
(*                                                                         *)
(* An operation is a record                                                *)
(*   op  "push"   descriptor d appended to list a                          *)
(*       "read"   loop b read into list a (behind what it has)             *)
(*       "copy"   list a becomes a copy of list c                          *)
(*       "move"   descriptor i of list c appended to list a as well        *)
(*       "swap"   contents of descriptor i of list a become those of d     *)
(*                (of the same kind)                                       *)
(*       "field"  number j of descriptor i of list a becomes x             *)
(***************************************************************************)
EXTENDS Descriptors

(* A program's own descriptor has k = 2 (and bytes n like a raw one). It   *)
(* stays what it is in its list; a copy has the same tag and bytes, but    *)
(* may be a raw descriptor.                                                *)
Lowered(d) == IF d.k = 2 THEN [d EXCEPT !.k = 0] ELSE d

\* What the copy is found to be, if it may be that
Adopt(d, got) == IF got = Lowered(d) THEN got ELSE d

Kind(d) == << d.k, IF d.k = 1 THEN d.t ELSE 0 >>

Do(ls, o) ==
  CASE o.op = "push"  -> [ls EXCEPT ![o.a] = Append(@, o.d)]
    [] o.op = "read"  -> [ls EXCEPT ![o.a] = @ \o DecLoop(o.b)]
    [] o.op = "copy"  -> [ls EXCEPT ![o.a] = ls[o.c]]
    [] o.op = "move"  -> [ls EXCEPT ![o.a] = Append(@, ls[o.c][o.i])]
    [] o.op = "swap"  -> [ls EXCEPT ![o.a][o.i] = o.d]
    [] o.op = "field" -> [ls EXCEPT ![o.a][o.i].n[o.j] = o.x]

\* The places of copies made by an operation that led to ls
Copies(ls, o) == CASE o.op = "copy" -> 1 .. Len(ls[o.a]) [] o.op = "move" -> { Len(ls[o.a]) } [] OTHER -> {}

\* An operation for which something is promised
Allowed(ls, o) ==
  CASE o.op = "push"  -> Len(Body(o.d)) <= 255
    [] o.op = "read"  -> LoopInDomain(o.b)
    [] o.op = "copy"  -> TRUE
    [] o.op = "move"  -> o.i \in 1 .. Len(ls[o.c])
    [] o.op = "swap"  -> o.i \in 1 .. Len(ls[o.a]) /\ Kind(ls[o.a][o.i]) = Kind(o.d) /\ Len(Body(o.d)) <= 255
    [] o.op = "field" -> o.i \in 1 .. Len(ls[o.a]) /\ o.j \in 1 .. Len(ls[o.a][o.i].n)
=============================================================================
