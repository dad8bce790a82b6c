------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Tables: PAT and PMT of ISO 13818-1 2.4.4, SDT, NIT, EIT, TDT and TOT of *)
(* EN 300 468 5.2.                                                         *)
(*                                                                         *)
(* A table is a record                                                     *)
(*   hd     identifiers   ds  table-wide descriptors                       *)
(*   items  entries, each [n: numbers, d: descriptors]                     *)
(*                                                                         *)
(*   pat  hd = << version, tsid >>                n = << program, pid >>   *)
(*   pmt  hd = << version, program, pcr >>        n = << type, pid >>      *)
(*   sdt  hd = << id, version, tsid, onid >>                               *)
(*        n = << service, schedule, present, running, scrambled >>         *)
(*   nit  hd = << id, version, network >>         n = << tsid, onid >>     *)
(*   eit  hd = << id, version, service, tsid, onid >>                      *)
(*        n = << event, day, second, duration, status, scrambled >>        *)
(*   tdt  hd = << day, second >>                                           *)
(*   tot  hd = << day, second >>, ds                                       *)
(***************************************************************************)
EXTENDS Descriptors, Section

Kinds == {"pat", "pmt", "sdt", "nit", "eit", "tdt", "tot"}

NoTable(kind) ==
  [ hd |-> CASE kind = "pat" -> << 0, 0 >> [] kind = "pmt" -> << 0, 0, 0 >> [] kind = "sdt" -> << 0, 0, 0, 0 >>
             [] kind = "nit" -> << 0, 0, 0 >> [] kind = "eit" -> << 0, 0, 0, 0, 0 >> [] OTHER -> << 0, 0 >>,
    ds |-> <<>>, items |-> <<>> ]

MaxSection(kind) == IF kind = "eit" THEN 4096 ELSE 1024

OwnIds(kind) ==
  CASE kind = "pat" -> {0} [] kind = "pmt" -> {2} [] kind = "sdt" -> {66, 70} [] kind = "nit" -> {64, 65}
    [] kind = "eit" -> 78 .. 111 [] kind = "tdt" -> {112} [] kind = "tot" -> {115}

-----------------------------------------------------------------------------
(* Entries                                                                 *)

Loop12(top, ds) == LET b == EncLoop(ds) IN B16(4096 * top + Len(b)) \o b

EncItem(kind, x) ==
  LET n == x.n IN
  CASE kind = "pat" -> B16(n[1]) \o B16(57344 + n[2])
    [] kind = "pmt" -> << n[1] >> \o B16(57344 + n[2]) \o Loop12(15, x.d)
    [] kind = "sdt" -> B16(n[1]) \o << 252 + 2 * n[2] + n[3] >> \o Loop12(2 * n[4] + n[5], x.d)
    [] kind = "nit" -> B16(n[1]) \o B16(n[2]) \o Loop12(15, x.d)
    [] kind = "eit" -> B16(n[1]) \o DateTime(<< n[2], n[3] >>) \o Hms(n[4]) \o Loop12(2 * n[5] + n[6], x.d)

ItemHead(kind) == CASE kind = "pat" -> 4 [] kind = "pmt" -> 5 [] kind = "sdt" -> 5 [] kind = "nit" -> 6 [] kind = "eit" -> 12
\* Size of the entry beginning at position i of b
ItemLen(kind, b, i) ==
  IF kind = "pat" THEN 4 ELSE ItemHead(kind) + (U16(b, i + ItemHead(kind) - 2) % 4096)

DecItem(kind, b) ==
  LET h == ItemHead(kind)
      d == IF kind = "pat" THEN <<>> ELSE DecLoop(Drop(b, h))
  IN  [ d |-> d,
        n |-> CASE kind = "pat" -> << U16(b, 1), U16(b, 3) % 8192 >>
                [] kind = "pmt" -> << b[1], U16(b, 2) % 8192 >>
                [] kind = "sdt" -> << U16(b, 1), Bit(b[3], 1), Bit(b[3], 0), Field(b[4], 5, 3), Bit(b[4], 4) >>
                [] kind = "nit" -> << U16(b, 1), U16(b, 3) >>
                [] kind = "eit" -> << U16(b, 1) >> \o UnDateTime(Mid(b, 3, 5)) \o << UnHms(Mid(b, 8, 3)) >>
                                   \o << Field(b[11], 5, 3), Bit(b[11], 4) >> ]

RECURSIVE EntryStarts(_, _, _)
EntryStarts(kind, b, i) ==
  IF i + ItemHead(kind) - 1 > Len(b) THEN <<>>
  ELSE IF i + ItemLen(kind, b, i) - 1 > Len(b) THEN <<>>
  ELSE << i >> \o EntryStarts(kind, b, i + ItemLen(kind, b, i))
Entries(kind, b) == LET p == EntryStarts(kind, b, 1) IN [j \in 1 .. Len(p) |-> Mid(b, p[j], ItemLen(kind, b, p[j]))]

-----------------------------------------------------------------------------
(* Sections                                                                *)

Ver(v) == 193 + 2 * v
UnVer(b) == Field(b, 1, 5)

\* A section of table t carrying table-wide descriptors ds and entries its,
\* with the given numbers; x: for EIT << segment last section, last table >>
EncSection(kind, hd, ds, its, num, last, x) ==
  LET e == Concat([i \in 1 .. Len(its) |-> EncItem(kind, its[i])]) IN
  CASE kind = "pat" -> Seal(<< 0, 176, 0 >> \o B16(hd[2]) \o << Ver(hd[1]), num, last >> \o e)
    [] kind = "pmt" -> Seal(<< 2, 176, 0 >> \o B16(hd[2]) \o << Ver(hd[1]), num, last >>
                            \o B16(57344 + hd[3]) \o Loop12(15, ds) \o e)
    [] kind = "sdt" -> Seal(<< hd[1], 240, 0 >> \o B16(hd[3]) \o << Ver(hd[2]), num, last >>
                            \o B16(hd[4]) \o << 255 >> \o e)
    [] kind = "nit" -> Seal(<< hd[1], 240, 0 >> \o B16(hd[3]) \o << Ver(hd[2]), num, last >>
                            \o Loop12(15, ds) \o B16(61440 + Len(e)) \o e)
    [] kind = "eit" -> Seal(<< hd[1], 240, 0 >> \o B16(hd[3]) \o << Ver(hd[2]), num, last >>
                            \o B16(hd[4]) \o B16(hd[5]) \o x \o e)
    [] kind = "tdt" -> << 112, 112, 5 >> \o DateTime(hd)
    [] kind = "tot" -> Seal(<< 115, 112, 0 >> \o DateTime(hd) \o Loop12(15, ds))

MinSize(kind) == CASE kind = "pat" -> 12 [] kind = "pmt" -> 16 [] kind = "sdt" -> 15 [] kind = "nit" -> 16
                   [] kind = "eit" -> 18 [] kind = "tdt" -> 8 [] kind = "tot" -> 14

\* Where the entries begin (from 1) and end
ProgramInfo(b) == U16(b, 11) % 4096
NetworkInfo(b) == U16(b, 9) % 4096
EntryBytes(kind, b) ==
  LET e == Len(b) - 4 IN
  CASE kind = "pat" -> SubSeq(b, 9, e)
    [] kind = "pmt" -> SubSeq(b, 13 + ProgramInfo(b), e)
    [] kind = "sdt" -> SubSeq(b, 12, e)
    [] kind = "nit" -> SubSeq(b, 13 + NetworkInfo(b), e)
    [] kind = "eit" -> SubSeq(b, 15, e)
    [] OTHER -> <<>>

TableDescs(kind, b) ==
  CASE kind = "pmt" -> DecLoop(Mid(b, 13, ProgramInfo(b)))
    [] kind = "nit" -> DecLoop(Mid(b, 11, NetworkInfo(b)))
    [] kind = "tot" -> DecLoop(Mid(b, 11, U16(b, 9) % 4096))
    [] OTHER -> <<>>

Idents(kind, b) ==
  CASE kind = "pat" -> << UnVer(b[6]), U16(b, 4) >>
    [] kind = "pmt" -> << UnVer(b[6]), U16(b, 4), U16(b, 9) % 8192 >>
    [] kind = "sdt" -> << b[1], UnVer(b[6]), U16(b, 4), U16(b, 9) >>
    [] kind = "nit" -> << b[1], UnVer(b[6]), U16(b, 4) >>
    [] kind = "eit" -> << b[1], UnVer(b[6]), U16(b, 4), U16(b, 9), U16(b, 11) >>
    [] OTHER -> UnDateTime(Mid(b, 4, 5))

\* What section b of a table says
DecSection(kind, b) ==
  LET e == IF kind \in {"tdt", "tot"} THEN <<>> ELSE Entries(kind, EntryBytes(kind, b))
  IN  [ hd |-> Idents(kind, b), ds |-> TableDescs(kind, b),
        items |-> [i \in 1 .. Len(e) |-> DecItem(kind, e[i])] ]

\* The table-wide loop of a section lies inside it
LoopInside(kind, b) ==
  CASE kind = "pmt" -> 12 + ProgramInfo(b) <= Len(b) - 4
    [] kind = "nit" -> 12 + NetworkInfo(b) <= Len(b) - 4
    [] kind = "tot" -> 10 + (U16(b, 9) % 4096) <= Len(b) - 4
    [] OTHER -> TRUE

\* The times in a section are times
TimesOk(kind, b) ==
  CASE kind \in {"tdt", "tot"} -> TimeOk(Mid(b, 6, 3))
    [] kind = "eit" -> LET e == Entries(kind, EntryBytes(kind, b)) IN
         \A i \in 1 .. Len(e) : TimeOk(Mid(e[i], 5, 3)) /\ BcdSeqOk(Mid(e[i], 8, 3)) /\ TimeOk(<< 0 >> \o Mid(e[i], 9, 2))
    [] OTHER -> TRUE

\* The descriptors in a section have a meaning
DescsOk(kind, b) ==
  /\ CASE kind = "pmt" -> LoopInDomain(Mid(b, 13, ProgramInfo(b)))
       [] kind = "nit" -> LoopInDomain(Mid(b, 11, NetworkInfo(b)))
       [] kind = "tot" -> LoopInDomain(Mid(b, 11, U16(b, 9) % 4096))
       [] OTHER -> TRUE
  /\ kind \in {"pmt", "sdt", "nit", "eit"} =>
       LET e == Entries(kind, EntryBytes(kind, b)) IN \A i \in 1 .. Len(e) : LoopInDomain(Drop(e[i], ItemHead(kind)))

\* The inner lengths of an intact section add up, and its times are times
WellFormed(kind, b) ==
  /\ Len(b) >= MinSize(kind)
  /\ LoopInside(kind, b)
  /\ TimesOk(kind, b)
  /\ LET e == EntryBytes(kind, b) IN e = <<>> \/ Len(Concat(Entries(kind, e))) = Len(e)

-----------------------------------------------------------------------------
(* A parser: accumulated table, and a received section (buffer b, size n)  *)

Takes(kind, b, n) ==
  /\ n >= MinSize(kind)
  /\ Len(b) >= n
  /\ b[1] \in OwnIds(kind)
  /\ IF kind = "tdt" THEN n = 8 ELSE CrcOk(Take(b, n))

Accumulate(kind, t, b, n) ==
  IF ~ Takes(kind, b, n) THEN t
  ELSE LET d == DecSection(kind, Take(b, n))
       IN  [hd |-> d.hd, ds |-> t.ds \o d.ds, items |-> t.items \o d.items]

-----------------------------------------------------------------------------
(* Sections carrying a whole table                                         *)

\* The table read from sections
RECURSIVE ReadSections(_, _, _)
ReadSections(kind, tab, secs) == IF secs = <<>> THEN tab ELSE ReadSections(kind, Accumulate(kind, tab, Head(secs), Len(Head(secs))), Tail(secs))

\* Number of entries in each of the sections and before it
Count(kind, secs, i) == Len(Entries(kind, EntryBytes(kind, secs[i])))
RECURSIVE Before(_, _, _)
Before(kind, secs, i) == IF i = 1 THEN 0 ELSE Before(kind, secs, i - 1) + Count(kind, secs, i - 1)

\* secs is a legal sequence of sections for table t (kinds pat, pmt, sdt, nit):
\* each one the coding of the next entries
IsCoding(kind, t, secs) ==
  LET m == Len(secs)
      cnt == [i \in 1 .. m |-> Count(kind, secs, i)]
      at == [i \in 1 .. m + 1 |-> SumSeq(Take(cnt, i - 1))]
  IN  /\ m >= 1 /\ m <= 256
      /\ at[m + 1] = Len(t.items)
      /\ \A i \in 1 .. m :
           /\ Len(secs[i]) <= MaxSection(kind)
           /\ secs[i] = EncSection(kind, t.hd, IF i = 1 THEN t.ds ELSE <<>>,
                                   SubSeq(t.items, at[i] + 1, at[i + 1]), i - 1, m - 1, <<>>)

\* What is left of a table that is written: a descriptor too long for its
\* length byte is not
Written(ds) == SelectSeq(ds, LAMBDA d : Len(Body(d)) <= 255)
WrittenTable(tab) ==
  [tab EXCEPT !.ds = Written(@), !.items = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.d = Written(@)]]]

\* Present/following: one event to a section
IsPresentFollowing(t, secs) ==
  LET m == Len(t.items) IN
  /\ Len(secs) = m
  /\ \A i \in 1 .. m : secs[i] = EncSection("eit", t.hd, <<>>, << t.items[i] >>, i - 1, m - 1, << m - 1, t.hd[1] >>)

IsOne(kind, t, secs) == secs = << EncSection(kind, t.hd, t.ds, <<>>, 0, 0, <<>>) >>

\* Applications that follow tables: whose section it is, and whether it is the
\* one that completes its table
KindOf(tid) ==
  CASE tid = 0 -> "pat" [] tid = 2 -> "pmt" [] tid \in {64, 65} -> "nit" [] tid \in {66, 70} -> "sdt"
    [] tid \in 78 .. 111 -> "eit" [] tid = 112 -> "tdt" [] tid = 115 -> "tot" [] OTHER -> "none"

Final(kind, b) ==
  CASE kind \in {"tdt", "tot"} -> TRUE
    [] kind = "eit" -> b[1] = b[14] /\ b[7] = b[8]
    [] OTHER -> b[7] = b[8]
=============================================================================
