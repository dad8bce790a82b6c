---------------------------- MODULE Descriptors -----------------------------
(***************************************************************************)
(* Descriptors of ISO 13818-1 2.6 and EN 300 468 6.2.                      *)
(*                                                                         *)
(* A descriptor is a record                                                *)
(*   t   tag                                                               *)
(*   k   1: its contents are known, 0: raw                                 *)
(*   n   numbers, s  texts (see DvbText), by tag:                          *)
(*                                                                         *)
(*   raw  n = data bytes                                                   *)
(*   09   CA               n = << caid, pid >> \o data                     *)
(*   0A   language         n = audio types, s = codes                      *)
(*   0E   maximum bitrate  n = << bitrate >>                               *)
(*   40   network name     s = << name >>                                  *)
(*   41   service list     n = << service, type >> ...                     *)
(*   43   satellite        n = << fhi, flo, orbit, west/east, polarisation,*)
(*                               roll-off, s2, modulation, rate, fec >>    *)
(*   44   cable            n = << fhi, flo, outer fec, modulation, rate,   *)
(*                               fec >>                                    *)
(*   48   service          n = << type >>, s = << provider, name >>        *)
(*   4D   short event      s = << language, name, text >>                  *)
(*   4E   extended event   n = << number, last, items >>,                  *)
(*                         s = << language, text >> \o << item, text >>... *)
(*   52   stream id        n = << tag >>                                   *)
(*   58   local time       n = << region, polarity, offset, day, second,   *)
(*                               next offset >> ..., s = country codes     *)
(*   5A   terrestrial      n = << fhi, flo, bandwidth, priority, slicing,  *)
(*                               mpe, modulation, hierarchy, rate hp,      *)
(*                               rate lp, guard, mode, other >>            *)
(*   83   logical channel  n = << service, visible, channel >> ...         *)
(*                                                                         *)
(* Frequencies are << f div 10000, f mod 10000 >> (32 bits).               *)
(***************************************************************************)
EXTENDS DvbText, DvbTime

KnownTags == {9, 10, 14, 64, 65, 67, 68, 72, 77, 78, 82, 88, 90, 131}

\* The i-th group of g elements
Group(x, g, i) == Mid(x, g * (i - 1) + 1, g)
Groups(x, g) == Len(x) \div g

-----------------------------------------------------------------------------
(* Contents of a descriptor (without tag and length)                       *)

Flat(F(_), m) == Concat([i \in 1 .. m |-> F(i)])

\* Frequency in units of 10^e (kHz*10 or Hz*100): an eight digit number
F10(hi, lo) == 1000 * hi + (lo \div 10)
F100(hi, lo) == 100 * hi + (lo \div 100)

Body(d) ==
  LET n == d.n  s == d.s IN
  IF d.k /= 1 THEN n
  ELSE CASE
    d.t = 9 -> B16(n[1]) \o B16(57344 + n[2]) \o Drop(n, 2)
  [] d.t = 10 -> Flat(LAMBDA i : TextBytes(s[i]) \o << n[i] >>, Len(s))
  [] d.t = 14 -> B24(12582912 + n[1])
  [] d.t = 64 -> TextBytes(s[1])
  [] d.t = 65 -> Flat(LAMBDA i : B16(n[2 * i - 1]) \o << n[2 * i] >>, Groups(n, 2))
  [] d.t = 67 -> BcdSeq(F10(n[1], n[2]), 4) \o BcdSeq(n[3] \div 6, 2)
                 \o << 128 * n[4] + 32 * n[5] + 8 * n[6] + 4 * n[7] + n[8] >>
                 \o BcdSeq(n[9], 3) \o << n[10] >>
  [] d.t = 68 -> BcdSeq(F100(n[1], n[2]), 4) \o << 255, 240 + n[3], n[4] >>
                 \o BcdSeq(n[5], 3) \o << n[6] >>
  [] d.t = 72 -> << n[1] >> \o SizedText(s[1]) \o SizedText(s[2])
  [] d.t = 77 -> TextBytes(s[1]) \o SizedText(s[2]) \o SizedText(s[3])
  [] d.t = 78 -> LET items == Flat(LAMBDA i : SizedText(s[2 * i + 1]) \o SizedText(s[2 * i + 2]), n[3])
                 IN  << 16 * n[1] + n[2] >> \o TextBytes(s[1]) \o << Len(items) >> \o items \o SizedText(s[2])
  [] d.t = 82 -> n
  [] d.t = 88 -> Flat(LAMBDA i : LET g == Group(n, 6, i) IN
                        TextBytes(s[i]) \o << 4 * g[1] + 2 + g[2] >> \o Hm(g[3])
                        \o DateTime(<< g[4], g[5] >>) \o Hm(g[6]), Len(s))
  [] d.t = 90 -> LET x == F10(n[1], n[2])
                 IN  B16(x \div 65536) \o B16(x % 65536)
                     \o << 32 * n[3] + 16 * n[4] + 8 * n[5] + 4 * n[6] + 3,
                           64 * n[7] + 8 * n[8] + n[9],
                           32 * n[10] + 8 * n[11] + 2 * n[12] + n[13], 255, 255, 255, 255 >>
  [] d.t = 131 -> Flat(LAMBDA i : LET g == Group(n, 3, i) IN
                         B16(g[1]) \o B16(32768 * g[2] + 31744 + g[3]), Groups(n, 3))

\* Descriptors that do not fit their length byte are left out.
EncDesc(d) == LET b == Body(d) IN IF Len(b) > 255 THEN <<>> ELSE << d.t, Len(b) >> \o b
EncLoop(ds) == Concat([i \in 1 .. Len(ds) |-> EncDesc(ds[i])])

-----------------------------------------------------------------------------
(* Reading                                                                 *)

\* Ends of the sized texts from position i of b on; 0: they do not fit
SizedEnd(b, i) == IF i > Len(b) THEN 0 ELSE IF i + b[i] > Len(b) THEN 0 ELSE i + b[i]
SizedAt(b, i) == Mid(b, i + 1, b[i])

\* Item texts of an extended event: sequence of raw texts, << << -1 >> >> if
\* they do not fit together
RECURSIVE ItemTexts(_)
ItemTexts(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF SizedEnd(b, 1) = 0 THEN << << 0 - 1 >> >>
  ELSE << SizedAt(b, 1) >> \o ItemTexts(Drop(b, 1 + b[1]))
ItemsOk(b) == LET x == ItemTexts(b) IN Len(x) % 2 = 0 /\ \A i \in 1 .. Len(x) : x[i] /= << 0 - 1 >>

\* The length (and inner lengths) of contents b suit tag t
Suits(t, b) ==
  CASE t = 9   -> Len(b) >= 4
    [] t = 10  -> Len(b) % 4 = 0
    [] t = 14  -> Len(b) = 3
    [] t = 64  -> TRUE
    [] t = 65  -> Len(b) % 3 = 0
    [] t = 67  -> Len(b) = 11
    [] t = 68  -> Len(b) = 11
    [] t = 72  -> /\ Len(b) >= 3
                  /\ SizedEnd(b, 2) /= 0
                  /\ SizedEnd(b, SizedEnd(b, 2) + 1) = Len(b)
    [] t = 77  -> /\ Len(b) >= 5
                  /\ SizedEnd(b, 4) /= 0
                  /\ SizedEnd(b, SizedEnd(b, 4) + 1) = Len(b)
    [] t = 78  -> /\ Len(b) >= 6
                  /\ SizedEnd(b, 5) /= 0
                  /\ SizedEnd(b, SizedEnd(b, 5) + 1) = Len(b)
                  /\ ItemsOk(SizedAt(b, 5))
    [] t = 82  -> Len(b) = 1
    [] t = 88  -> Len(b) % 13 = 0
    [] t = 90  -> Len(b) = 11
    [] t = 131 -> Len(b) % 4 = 0
    [] OTHER   -> FALSE

\* ... and its fields have a meaning: code pages, decimal digits, 32 bit
\* frequencies, dates since 1970
CodeOk(b) == b[1] >= 32        \* language, country: three letters
InDomain(t, b) ==
  CASE t = 10  -> \A i \in 1 .. Groups(b, 4) : CodeOk(Group(b, 4, i))
    [] t = 64  -> TextOk(b)
    [] t = 67  -> BcdSeqOk(Take(b, 6)) /\ BcdSeqOk(Mid(b, 8, 3))
    [] t = 68  -> BcdSeqOk(Take(b, 4)) /\ BcdSeqOk(Mid(b, 8, 3)) /\ UnBcdSeq(Take(b, 4)) <= 42949672
    [] t = 72  -> TextOk(SizedAt(b, 2)) /\ TextOk(SizedAt(b, SizedEnd(b, 2) + 1))
    [] t = 77  -> CodeOk(b) /\ TextOk(SizedAt(b, 4)) /\ TextOk(SizedAt(b, SizedEnd(b, 4) + 1))
    [] t = 78  -> /\ CodeOk(Drop(b, 1))
                  /\ \A i \in 1 .. Len(ItemTexts(SizedAt(b, 5))) : TextOk(ItemTexts(SizedAt(b, 5))[i])
                  /\ TextOk(SizedAt(b, SizedEnd(b, 5) + 1))
    [] t = 88  -> \A i \in 1 .. Groups(b, 13) :
                    LET g == Group(b, 13, i) IN
                    CodeOk(g) /\ TimeOk(Mid(g, 5, 2)) /\ U16(g, 7) >= Epoch /\ TimeOk(Mid(g, 9, 3)) /\ TimeOk(Mid(g, 12, 2))
    [] t = 90  -> U16(b, 1) < 6553
    [] OTHER   -> TRUE

Raw(t, b) == [t |-> t, k |-> 0, n |-> b, s |-> <<>>]

Numbers(t, b) ==
  CASE t = 9  -> << U16(b, 1), U16(b, 3) % 8192 >> \o Drop(b, 4)
    [] t = 10 -> [i \in 1 .. Groups(b, 4) |-> b[4 * i]]
    [] t = 14 -> << U24(b, 1) % 4194304 >>
    [] t = 65 -> Flat(LAMBDA i : << U16(b, 3 * i - 2), b[3 * i] >>, Groups(b, 3))
    [] t = 67 -> LET f == UnBcdSeq(Take(b, 4)) IN
                 << f \div 1000, 10 * (f % 1000), 6 * UnBcdSeq(Mid(b, 5, 2)), Bit(b[7], 7), Field(b[7], 5, 2),
                    Field(b[7], 3, 2), Bit(b[7], 2), Field(b[7], 0, 2), UnBcdSeq(Mid(b, 8, 3)), Field(b[11], 0, 4) >>
    [] t = 68 -> LET f == UnBcdSeq(Take(b, 4)) IN
                 << f \div 100, 100 * (f % 100), Field(b[6], 0, 4), b[7], UnBcdSeq(Mid(b, 8, 3)), Field(b[11], 0, 4) >>
    [] t = 72 -> << b[1] >>
    [] t = 78 -> << Field(b[1], 4, 4), Field(b[1], 0, 4), Len(ItemTexts(SizedAt(b, 5))) \div 2 >>
    [] t = 82 -> b
    [] t = 88 -> Flat(LAMBDA i : LET g == Group(b, 13, i)
                                     w == UnDateTime(Mid(g, 7, 5))
                                 IN  << Field(g[4], 2, 6), Bit(g[4], 0), UnHm(Mid(g, 5, 2)), w[1], w[2],
                                        UnHm(Mid(g, 12, 2)) >>, Groups(b, 13))
    [] t = 90 -> LET f == 65536 * U16(b, 1) + U16(b, 3) IN
                 << f \div 1000, 10 * (f % 1000), Field(b[5], 5, 3), Bit(b[5], 4), Bit(b[5], 3), Bit(b[5], 2),
                    Field(b[6], 6, 2), Field(b[6], 3, 3), Field(b[6], 0, 3),
                    Field(b[7], 5, 3), Field(b[7], 3, 2), Field(b[7], 1, 2), Bit(b[7], 0) >>
    [] t = 131 -> Flat(LAMBDA i : LET w == U16(b, 4 * i - 1) IN << U16(b, 4 * i - 3), w \div 32768, w % 1024 >>,
                       Groups(b, 4))
    [] OTHER -> <<>>

Texts(t, b) ==
  CASE t = 10 -> [i \in 1 .. Groups(b, 4) |-> UnText(Mid(b, 4 * i - 3, 3))]
    [] t = 64 -> << UnText(b) >>
    [] t = 72 -> << UnText(SizedAt(b, 2)), UnText(SizedAt(b, SizedEnd(b, 2) + 1)) >>
    [] t = 77 -> << UnText(Take(b, 3)), UnText(SizedAt(b, 4)), UnText(SizedAt(b, SizedEnd(b, 4) + 1)) >>
    [] t = 78 -> LET x == ItemTexts(SizedAt(b, 5)) IN
                 << UnText(Mid(b, 2, 3)), UnText(SizedAt(b, SizedEnd(b, 5) + 1)) >>
                 \o [i \in 1 .. Len(x) |-> UnText(x[i])]
    [] t = 88 -> [i \in 1 .. Groups(b, 13) |-> UnText(Mid(b, 13 * i - 12, 3))]
    [] OTHER -> <<>>

DecDesc(t, b) ==
  IF ~ Suits(t, b) THEN Raw(t, b) ELSE [t |-> t, k |-> 1, n |-> Numbers(t, b), s |-> Texts(t, b)]

\* The items of a loop, each << tag >> \o contents; a cut-off tail is no item.
\* (Positions first: sequences are only cut once.)
RECURSIVE ItemStarts(_, _)
ItemStarts(b, i) ==
  IF i + 1 > Len(b) THEN <<>>
  ELSE IF i + 1 + b[i + 1] > Len(b) THEN <<>>
  ELSE << i >> \o ItemStarts(b, i + 2 + b[i + 1])
LoopItems(b) == LET p == ItemStarts(b, 1) IN [j \in 1 .. Len(p) |-> << b[p[j]] >> \o Mid(b, p[j] + 2, b[p[j] + 1])]

DecLoop(b) == LET x == LoopItems(b) IN [i \in 1 .. Len(x) |-> DecDesc(x[i][1], Tail(x[i]))]
LoopInDomain(b) ==
  LET x == LoopItems(b) IN
  \A i \in 1 .. Len(x) : Suits(x[i][1], Tail(x[i])) => InDomain(x[i][1], Tail(x[i]))

\* r is a reading of item << tag >> \o contents
IsReading(r, x) ==
  LET t == x[1]  b == Tail(x) IN
  /\ r.t = t
  /\ IF ~ Suits(t, b) THEN r = Raw(t, b)
     ELSE r.k = 1 /\ (InDomain(t, b) => r = DecDesc(t, b))
IsReadings(rs, b) ==
  LET x == LoopItems(b) IN Len(rs) = Len(x) /\ \A i \in 1 .. Len(x) : IsReading(rs[i], x[i])
=============================================================================
