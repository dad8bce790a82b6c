------------------------------- MODULE Relay --------------------------------
(***************************************************************************)
(* What a program does with what it received before it sends it on.        *)
(*                                                                         *)
(* A section: keep (the first bytes kept, -1 all up to the checksum), put  *)
(* (bytes replaced, << index, value >>), add (bytes continuing it).        *)
(*                                                                         *)
(* A table: changes op                                                     *)
(*   "head"     identifier i becomes x[1]                                  *)
(*   "time"     the time becomes x                                         *)
(*   "drop"     entry i is left out                                        *)
(*   "swap"     entries i and j change places                              *)
(*   "again"    entry i once more at the end                               *)
(*   "number"   number j of entry i becomes x[1]                           *)
(*   "append"   descriptors d added to those of entry i (0: of the table)  *)
(*   "without"  descriptors with tag x[1] of entry i (0) left out          *)
(*   "give"     entry j gets the descriptors of entry i, which has none    *)
(*              then                                                       *)
(***************************************************************************)
EXTENDS Tables

RECURSIVE Replaced(_, _)
Replaced(b, put) == IF put = <<>> THEN b ELSE Replaced([b EXCEPT ![put[1][1]] = put[1][2]], Tail(put))

ChangedSection(b, keep, put, add) ==
  Seal(Replaced(Take(b, IF keep < 0 THEN Len(b) - 4 ELSE keep), put) \o add)

Without(s, i) == Take(s, i - 1) \o Drop(s, i)

Changed(tab, o) ==
  CASE o.op = "head"    -> [tab EXCEPT !.hd[o.i] = o.x[1]]
    [] o.op = "time"    -> [tab EXCEPT !.hd = o.x]
    [] o.op = "drop"    -> [tab EXCEPT !.items = Without(@, o.i)]
    [] o.op = "swap"    -> [tab EXCEPT !.items[o.i] = tab.items[o.j], !.items[o.j] = tab.items[o.i]]
    [] o.op = "again"   -> [tab EXCEPT !.items = Append(@, tab.items[o.i])]
    [] o.op = "number"  -> [tab EXCEPT !.items[o.i].n[o.j] = o.x[1]]
    [] o.op = "append"  -> IF o.i = 0 THEN [tab EXCEPT !.ds = @ \o o.d] ELSE [tab EXCEPT !.items[o.i].d = @ \o o.d]
    [] o.op = "without" -> LET f(q) == q.t /= o.x[1] IN
                           IF o.i = 0 THEN [tab EXCEPT !.ds = SelectSeq(@, f)] ELSE [tab EXCEPT !.items[o.i].d = SelectSeq(@, f)]
    [] o.op = "give"    -> [tab EXCEPT !.items[o.j].d = tab.items[o.i].d, !.items[o.i].d = <<>>]

RECURSIVE AllChanged(_, _)
AllChanged(tab, ops) == IF ops = <<>> THEN tab ELSE AllChanged(Changed(tab, Head(ops)), Tail(ops))

\* Sections that carry the table
Carries(kind, tab, secs) ==
  CASE kind = "eit" -> tab.items = <<>> \/ IsPresentFollowing(tab, secs)
    [] kind \in {"tdt", "tot"} -> IsOne(kind, tab, secs)
    [] OTHER -> IsCoding(kind, tab, secs)
=============================================================================
