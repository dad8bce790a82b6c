------------------------------- MODULE MC_C32 -------------------------------
(***************************************************************************)
(* Numbers written to all places of a small array, and fields packed in    *)
(* all ways: what is written is read, nothing else changes, fields do not  *)
(* overlap.                                                                *)
(***************************************************************************)
EXTENDS Words
CONSTANTS Size, MaxOps
VARIABLES a, n, last
vars == << a, n, last >>
Vals == { << 0, 0 >>, << 0, 1 >>, << 0, 256 >>, << 0, 65535 >>, << 1, 0 >>, << 255, 4660 >>, << 65535, 65535 >>, << 32768, 1 >> }
Fits(x, w) == CASE w = 2 -> x[1] = 0 [] w = 3 -> x[1] < 256 [] w = 4 -> TRUE
Init == a \in { Rep(0, Size), Rep(255, Size) } /\ n = 0 /\ last = << 0, 0, << 0, 0 >> >>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E w \in 2 .. 4 : \E o \in 0 .. Size - w : \E x \in Vals :
             /\ Fits(x, w)
             /\ a' = Put(a, o, w, x)
             /\ last' = << o, w, x >>
WellFormed == Len(a) = Size /\ IsByteSeq(a)
ReadBack == n > 0 => Get(a, last[1], last[2]) = last[3]
Frame == [][ \A i \in 1 .. Size : i \in (last'[1] + 1) .. (last'[1] + last'[2]) \/ a'[i] = a[i] ]_vars

\* all ways to cut eight bits into fields, two fillings of each
RECURSIVE Cuts(_)
Cuts(m) == IF m = 0 THEN {<<>>} ELSE UNION { { << w >> \o c : c \in Cuts(m - w) } : w \in 1 .. m }
ASSUME Packing ==
  \A c \in Cuts(8) : \A f \in {0, 1, 2} :
    LET vs == [i \in 1 .. Len(c) |-> CASE f = 0 -> 0 [] f = 1 -> Pow2[c[i]] - 1 [] f = 2 -> i % Pow2[c[i]]]
        x == Packed(8, vs, c)
        low(i) == SumSeq(Drop(c, i))
    IN  x \in Byte /\ \A i \in 1 .. Len(c) : Field(x, low(i), c[i]) = vs[i]
=============================================================================
