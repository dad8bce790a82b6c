------------------------------ MODULE Carousel ------------------------------
(***************************************************************************)
(* Tables sent again and again, and a program that collects them.          *)
(*                                                                         *)
(* The program keeps for every table (table id and extension) the sections *)
(* of one version by their numbers. A section of another version, or of a  *)
(* table of another length, starts over. When all sections are there they  *)
(* are read in order, once. TOT has no versions: each one that differs     *)
(* from the one before is read.                                            *)
(*                                                                         *)
(*   col   key |-> [ver, last, have: number |-> section, told]             *)
(***************************************************************************)
EXTENDS Tables, TLC

KeyOf(b) == << b[1], IF KindOf(b[1]) = "tot" THEN 0 ELSE U16(b, 4) >>

\* Outcome of section b: col, and the tables completed (at most one)
Collect(col, b) ==
  LET kind == KindOf(b[1]) IN
  IF kind \in {"none", "tdt"} \/ ~ Takes(kind, b, Len(b)) THEN [col |-> col, new |-> <<>>]
  ELSE
  LET key   == KeyOf(b)
      ver   == IF kind = "tot" THEN b ELSE UnVer(b[6])
      last  == IF kind = "tot" THEN 0 ELSE b[8]
      num   == IF kind = "tot" THEN 0 ELSE b[7]
      fresh == [ver |-> ver, last |-> last, have |-> <<>>, told |-> FALSE]
      old   == IF key \in DOMAIN col /\ col[key].ver = ver /\ col[key].last = last THEN col[key] ELSE fresh
      have  == IF num \in DOMAIN old.have THEN old.have ELSE (num :> b) @@ old.have
      full  == DOMAIN have = 0 .. last
  IN  [ col |-> (key :> [old EXCEPT !.have = have, !.told = full]) @@ col,
        new |-> IF full /\ ~ old.told
                THEN << [kind |-> kind, key |-> key, t |-> ReadSections(kind, NoTable(kind), [i \in 1 .. last + 1 |-> have[i - 1]])] >>
                ELSE <<>> ]

RECURSIVE CollectAll(_, _)
CollectAll(col, secs) ==
  IF secs = <<>> THEN [col |-> col, new |-> <<>>]
  ELSE LET o == Collect(col, Head(secs))
           r == CollectAll(o.col, Tail(secs))
       IN  [col |-> r.col, new |-> o.new \o r.new]
=============================================================================
