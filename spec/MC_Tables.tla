------------------------------ MODULE MC_Tables ------------------------------
(***************************************************************************)
(* A sender cuts a table into sections anywhere, a parser gets them one by *)
(* one, mixed with sections it has to leave alone.                         *)
(***************************************************************************)
EXTENDS Tables

CONSTANTS MCKinds, MCItems

VARIABLES kind, tb, cut, at, got
vars == << kind, tb, cut, at, got >>

Typed(t, n) == [t |-> t, k |-> 1, n |-> n, s |-> <<>>]
Descs == {<<>>, << Raw(200, << 7, 0, 255 >>) >>, << Typed(82, << 9 >>), Raw(128, <<>>) >>}
Few == {<<>>, << Typed(82, << 1 >>) >>}

Ids == {0, 1, 255, 256, 65535}
Pids == {0, 255, 256, 4096, 8191}
Vers == {0, 1, 16, 31}
Item(n, d) == [n |-> n, d |-> d]

Items(k) ==
  CASE k = "pat" -> { Item(<< a, b >>, <<>>) : a \in Ids, b \in Pids }
    [] k = "pmt" -> { Item(<< a, b >>, d) : a \in {0, 6, 255}, b \in Pids, d \in Descs }
    [] k = "sdt" -> { Item(<< a, b, c, e, f >>, d) : a \in {1, 65535}, b \in {0, 1}, c \in {0, 1}, e \in {0, 5, 7}, f \in {0, 1}, d \in Few }
    [] k = "nit" -> { Item(<< a, b >>, d) : a \in Ids, b \in {0, 511, 65535}, d \in Descs }
    [] k = "eit" -> { Item(<< a, b, c, e, f, g >>, d) : a \in {1, 65535}, b \in {0, 17000, 24948}, c \in {0, 45296, 86399},
                        e \in {0, 5025, 359999}, f \in {0, 7}, g \in {0, 1}, d \in Few }
    [] OTHER -> {}

Heads(k) ==
  CASE k = "pat" -> { << v, a >> : v \in Vers, a \in Ids }
    [] k = "pmt" -> { << v, a, b >> : v \in Vers, a \in {1, 65535}, b \in {0, 8191} }
    [] k = "sdt" -> { << i, v, a, b >> : i \in {66, 70}, v \in Vers, a \in {1, 256}, b \in {0, 65535} }
    [] k = "nit" -> { << i, v, a >> : i \in {64, 65}, v \in Vers, a \in Ids }
    [] k = "eit" -> { << i, v, a, b, c >> : i \in {78, 79}, v \in {0, 31}, a \in {1, 65535}, b \in {2, 256}, c \in {3, 255} }
    [] OTHER -> { << a, b >> : a \in {0, 1, 10956, 11015, 17000, 24948},
                               b \in {0, 59, 60, 3599, 3600, 35999, 36000, 45296, 86399} }

Wide(k) == IF k \in {"pmt", "nit", "tot"} THEN Descs ELSE {<<>>}


\* Tables: every head with no or one entry, every entry with one head, lists
One(S) == IF S = {} THEN {} ELSE { CHOOSE x \in S : TRUE }
Two(k) == LET a == CHOOSE x \in Items(k) : TRUE IN { a, CHOOSE x \in Items(k) : x.n[1] /= a.n[1] }
Lists(k) == IF Items(k) = {} THEN {} ELSE UNION { [1 .. n -> Two(k)] : n \in 2 .. MCItems }
T(h, d, x) == [hd |-> h, ds |-> d, items |-> x]
MCTables(k) ==
  { T(h, d, x) : h \in Heads(k), d \in Wide(k), x \in {<<>>} \cup { << i >> : i \in One(Items(k)) } }
  \cup { T(h, d, << i >>) : h \in One(Heads(k)), d \in Wide(k), i \in Items(k) }
  \cup { T(h, d, x) : h \in One(Heads(k)), d \in Wide(k), x \in Lists(k) }

\* How many entries go into each section; present/following: one each
Cuts(k, n) ==
  CASE k \in {"tdt", "tot"} -> { << 0 >> }
    [] k = "eit" -> { Rep(1, n) }
    [] OTHER -> UNION { { c \in [1 .. m -> 0 .. n] : SumSeq(c) = n } : m \in 1 .. n + 1 }

Secs == LET m == Len(cut) IN
  [i \in 1 .. m |-> LET b == SumSeq(Take(cut, i - 1)) IN
     EncSection(kind, tb.hd, IF i = 1 THEN tb.ds ELSE <<>>, SubSeq(tb.items, b + 1, b + cut[i]), i - 1, m - 1, << m - 1, tb.hd[1] >>)]

\* Sections to be left alone: of another table, altered, cut, empty
Strange == LET s == EncSection(kind, tb.hd, tb.ds, tb.items, 0, 0, << 0, tb.hd[1] >>)
               o == EncSection("pat", << 3, 4 >>, <<>>, << Item(<< 5, 6 >>, <<>>) >>, 0, 0, <<>>)
           IN  { << EncSection("tdt", << 5, 6 >>, <<>>, <<>>, 0, 0, <<>>), 8 >>, << Take(s, Len(s) - 1), Len(s) >>,
                 << Take(s, 3), Len(s) >>, << <<>>, 0 >>, << o, Len(o) >>, << Seal(Take(s, 7)), 7 >> }
               \cup (IF kind = "tdt" THEN {} ELSE { << [s EXCEPT ![4] = 255 - @], Len(s) >>, << [s EXCEPT ![Len(s)] = (@ + 1) % 256], Len(s) >> })
Left == { x \in Strange : Len(x[1]) < 3 \/ kind \notin {"pat", "tdt"} \/ x[1][1] \notin OwnIds(kind) \/ Len(x[1]) < x[2] }

Init == /\ kind \in MCKinds
        /\ tb \in MCTables(kind)
        /\ cut \in Cuts(kind, Len(tb.items))
        /\ at = 0
        /\ got = NoTable(kind)
Deliver == /\ at < Len(cut)
           /\ at' = at + 1
           /\ got' = Accumulate(kind, got, Secs[at + 1], Len(Secs[at + 1]))
           /\ UNCHANGED << kind, tb, cut >>
Disturb == /\ \E x \in Left : got' = Accumulate(kind, got, x[1], x[2])
           /\ UNCHANGED << kind, tb, cut, at >>
Next == Deliver \/ Disturb

\* The parser holds what was delivered and nothing else
Exact == got = IF at = 0 THEN NoTable(kind)
               ELSE [hd |-> tb.hd, ds |-> tb.ds, items |-> Take(tb.items, SumSeq(Take(cut, at)))]
\* The judge of recorded sections accepts these ones, and not with one missing
Judged ==
  at = 0 =>
  LET ok(s) == CASE kind \in {"tdt", "tot"} -> IsOne(kind, tb, s)
                 [] kind = "eit" -> IsPresentFollowing(tb, s)
                 [] OTHER -> IsCoding(kind, tb, s)
  IN  /\ ok(Secs)
      /\ Len(cut) >= 1 => ~ ok(Take(Secs, Len(cut) - 1)) /\ ~ ok(Drop(Secs, 1)) /\ ~ ok(Secs \o << Secs[1] >>)
Bytes == \A i \in 1 .. Len(cut) : IsByteSeq(Secs[i]) /\ WellFormed(kind, Secs[i]) /\ (kind /= "tdt" => CrcOk(Secs[i]))
=============================================================================
