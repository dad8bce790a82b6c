------------------------------- MODULE MC_C14 -------------------------------
(***************************************************************************)
(* Parsers given any sections in any order. `taken` lists the good ones.   *)
(***************************************************************************)
EXTENDS Tables

CONSTANTS Depth

VARIABLES kind, got, taken, left
vars == << kind, got, taken, left >>

Item(n, d) == [n |-> n, d |-> d]
D == << Raw(200, << 7 >>) >>
Good(k) ==
  CASE k = "pat" -> { EncSection(k, << 1, 2 >>, <<>>, << Item(<< 3, 4 >>, <<>>) >>, 0, 1, <<>>),
                      EncSection(k, << 9, 8 >>, <<>>, << Item(<< 5, 6 >>, <<>>), Item(<< 5, 7 >>, <<>>) >>, 1, 1, <<>>),
                      EncSection(k, << 0, 8 >>, <<>>, <<>>, 0, 0, <<>>) }
    [] k = "pmt" -> { EncSection(k, << 1, 2, 3 >>, D, << Item(<< 3, 4 >>, <<>>) >>, 0, 1, <<>>),
                      EncSection(k, << 9, 8, 7 >>, <<>>, << Item(<< 5, 6 >>, D) >>, 1, 1, <<>>),
                      EncSection(k, << 0, 8, 1 >>, D, <<>>, 0, 0, <<>>) }
    [] k = "sdt" -> { EncSection(k, << 66, 1, 2, 3 >>, <<>>, << Item(<< 3, 1, 0, 4, 0 >>, D) >>, 0, 1, <<>>),
                      EncSection(k, << 70, 9, 8, 7 >>, <<>>, << Item(<< 5, 0, 1, 7, 1 >>, <<>>) >>, 1, 1, <<>>),
                      EncSection(k, << 66, 0, 8, 1 >>, <<>>, <<>>, 0, 0, <<>>) }
    [] k = "nit" -> { EncSection(k, << 64, 1, 2 >>, D, << Item(<< 3, 1 >>, D) >>, 0, 1, <<>>),
                      EncSection(k, << 65, 9, 8 >>, <<>>, << Item(<< 5, 0 >>, <<>>) >>, 1, 1, <<>>),
                      EncSection(k, << 64, 0, 8 >>, D, <<>>, 0, 0, <<>>) }
    [] k = "eit" -> { EncSection(k, << 78, 1, 2, 3, 4 >>, <<>>, << Item(<< 3, 17000, 5, 60, 1, 0 >>, D) >>, 0, 1, << 1, 78 >>),
                      EncSection(k, << 111, 9, 8, 7, 6 >>, <<>>, << Item(<< 5, 0, 0, 0, 7, 1 >>, <<>>) >>, 1, 1, << 1, 111 >>),
                      EncSection(k, << 80, 0, 8, 1, 2 >>, <<>>, <<>>, 0, 0, << 0, 80 >>) }
    [] k = "tdt" -> { EncSection(k, << 17000, 5 >>, <<>>, <<>>, 0, 0, <<>>), EncSection(k, << 1, 86399 >>, <<>>, <<>>, 0, 0, <<>>) }
    [] k = "tot" -> { EncSection(k, << 17000, 5 >>, D, <<>>, 0, 0, <<>>), EncSection(k, << 1, 86399 >>, <<>>, <<>>, 0, 0, <<>>) }

\* Received: << buffer, size, good >>
Whole(s) == << s, Len(s) >>
Bad(k) ==
  LET own == CHOOSE s \in Good(k) : \A u \in Good(k) : Len(u) <= Len(s)
  IN  { Whole(s) : s \in UNION { Good(j) : j \in Kinds \ {k} } }
      \cup { << Take(own, n), Len(own) >> : n \in {3, Len(own) \div 2, Len(own) - 1} }
      \cup { << Take(own, n), n >> : n \in {3, 7} \cup (IF k = "tdt" THEN {} ELSE {Len(own) - 1}) }
      \cup (IF k = "tdt" THEN {} ELSE { Whole([own EXCEPT ![i] = 255 - @]) : i \in {2, 6, Len(own) - 4, Len(own)} })
      \cup { << <<>>, 0 >> }

Init == kind \in Kinds /\ got = NoTable(kind) /\ taken = <<>> /\ left = Depth
Give == \E s \in Good(kind) : /\ got' = Accumulate(kind, got, s, Len(s))
                              /\ taken' = Append(taken, s)
\* The buffer may hold more than the section
GiveMore == \E s \in Good(kind) : /\ got' = Accumulate(kind, got, s \o << 255, 0 >>, Len(s))
                                  /\ taken' = Append(taken, s)
Refuse == \E x \in Bad(kind) : /\ got' = Accumulate(kind, got, x[1], x[2])
                               /\ taken' = taken
Next == left > 0 /\ left' = left - 1 /\ kind' = kind /\ (Give \/ GiveMore \/ Refuse)

All(f(_)) == Concat([i \in 1 .. Len(taken) |-> f(DecSection(kind, taken[i]))])
Accumulated ==
  /\ got.items = All(LAMBDA x : x.items)
  /\ got.ds = All(LAMBDA x : x.ds)
  /\ got.hd = IF taken = <<>> THEN NoTable(kind).hd ELSE Idents(kind, taken[Len(taken)])
=============================================================================
