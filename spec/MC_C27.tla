------------------------------- MODULE MC_C27 -------------------------------
(* The table is consistent: each conversion and the one back *)
EXTENDS Lang
VARIABLE c
Init == c = ""
Next == c = "" /\ c' \in Keys(Terms) \cup Vals(Terms) \cup Vals(Biblio)
Two == Keys(Terms)
Unique == c \in Two => Cardinality({ i \in 1 .. Len(Terms) : Terms[i][1] = c }) = 1
OneOwner == c \notin Two /\ c /= "" => Cardinality({ x \in Two : TermOf[x] = c \/ BiblioOf[x] = c }) = 1
There == c \in Two => Convert(Convert(c)) = c /\ Convert(TermOf[c]) = c
Back == c /= "" /\ c \notin Two => Convert(c) \in Two /\ Convert(Convert(c)) = BiblioOf[Convert(c)]
=============================================================================
