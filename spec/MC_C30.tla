------------------------------- MODULE MC_C30 -------------------------------
(***************************************************************************)
(* All short uses of two lists: operations touch only the list and the     *)
(* descriptor they name; what is written is the list as it is.             *)
(***************************************************************************)
EXTENDS DescList

CONSTANTS MaxLen, MaxOps
VARIABLES ls, n
vars == << ls, n >>

Some == { [t |-> 14, k |-> 1, n |-> << 5 >>, s |-> <<>>],
          [t |-> 82, k |-> 1, n |-> << 7 >>, s |-> <<>>],
          [t |-> 128, k |-> 0, n |-> << 1, 2 >>, s |-> <<>>],
          [t |-> 150, k |-> 2, n |-> << 4 >>, s |-> <<>>],
          [t |-> 14, k |-> 0, n |-> << 9 >>, s |-> <<>>] }
Loops == { <<>>, << 82, 1, 3 >>, << 82, 0, 14, 3, 192, 0, 1 >>, << 14, 3, 192 >> }
Lists == 1 .. 2
Ops ==
  { [op |-> "push", a |-> a, d |-> d] : a \in Lists, d \in Some }
  \cup { [op |-> "read", a |-> a, b |-> b] : a \in Lists, b \in Loops }
  \cup { [op |-> "copy", a |-> a, c |-> 3 - a] : a \in Lists }
  \cup { [op |-> "move", a |-> a, c |-> c, i |-> i] : a \in Lists, c \in Lists, i \in 1 .. MaxLen }
  \cup { [op |-> "swap", a |-> a, i |-> i, d |-> d] : a \in Lists, i \in 1 .. MaxLen, d \in Some }
  \cup { [op |-> "field", a |-> a, i |-> i, j |-> 1, x |-> x] : a \in Lists, i \in 1 .. MaxLen, x \in {0, 200} }

Init == ls = << <<>>, <<>> >> /\ n = 0
Next == /\ n < MaxOps
        /\ n' = n + 1
        /\ \E o \in Ops : Allowed(ls, o) /\ \E low \in BOOLEAN :
             LET f == Do(ls, o) IN
             ls' = (IF low THEN [f EXCEPT ![o.a] = [j \in 1 .. Len(@) |-> IF j \in Copies(f, o) THEN Lowered(@[j]) ELSE @[j]]] ELSE f)
             /\ Len(ls'[o.a]) <= MaxLen

TypeOK == \A a \in Lists : \A i \in 1 .. Len(ls[a]) : ls[a][i].k \in {0, 1, 2} /\ IsByteSeq(EncDesc(ls[a][i]))
\* a list is written as its descriptors are, one after the other, and read back as such
Written ==
  \A a \in Lists :
    /\ Len(EncLoop(ls[a])) = SumSeq([i \in 1 .. Len(ls[a]) |-> 2 + Len(Body(ls[a][i]))])
    /\ Len(DecLoop(EncLoop(ls[a]))) = Len(ls[a])
    /\ \A i \in 1 .. Len(ls[a]) : DecLoop(EncLoop(ls[a]))[i] = (IF ls[a][i].k = 1 THEN ls[a][i] ELSE DecDesc(ls[a][i].t, ls[a][i].n))
\* one list at a time; a list only grows, keeps its descriptors, or changes one of them, or becomes the other
Bytes(ds) == [i \in 1 .. Len(ds) |-> Lowered(ds[i])]
OneList == [][ \E a \in Lists : ls'[3 - a] = ls[3 - a] ]_vars
Careful == [][ \A a \in Lists :
                 \/ Bytes(ls'[a]) = Bytes(ls[3 - a])
                 \/ /\ Len(ls'[a]) >= Len(ls[a])
                    /\ Cardinality({ i \in 1 .. Len(ls[a]) : ls'[a][i] /= ls[a][i] }) <= (IF Len(ls'[a]) = Len(ls[a]) THEN 1 ELSE 0) ]_vars
=============================================================================
