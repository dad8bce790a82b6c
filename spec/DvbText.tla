------------------------------ MODULE DvbText -------------------------------
(***************************************************************************)
(* Text of EN 300 468 annex A. A text is the sequence                      *)
(*   << code page, byte, byte, ... >>                                      *)
(* code page 0: ISO 6937, 1 .. 15: ISO 8859-n, 21: UTF-8.                  *)
(***************************************************************************)
EXTENDS Bits, CodePages

Utf8 == 21
Pages == SinglePages \cup {Utf8}

Cp(s) == s[1]
Data(s) == Tail(s)
NoText == << 0 >>

-----------------------------------------------------------------------------
(* Selector and written form                                               *)

Selector(cp) ==
  IF cp = 0 THEN <<>>
  ELSE IF cp <= 4 THEN << 16, 0, cp >>
  ELSE IF cp <= 15 THEN << cp - 4 >>
  ELSE << cp >>

TextBytes(s) == IF Len(s) = 1 THEN <<>> ELSE Selector(Cp(s)) \o Data(s)
TextSize(s) == Len(TextBytes(s))
SizedText(s) == << TextSize(s) >> \o TextBytes(s)

\* Bytes that name a supported code page (or none at all)
TextOk(b) ==
  IF b = <<>> THEN TRUE
  ELSE IF b[1] >= 32 \/ b[1] = 21 THEN TRUE
  ELSE IF b[1] \in ((1 .. 7) \cup (9 .. 11)) THEN TRUE
  ELSE b[1] = 16 /\ Len(b) >= 3 /\ b[2] = 0 /\ b[3] \in (SinglePages \ {0})

UnText(b) ==
  IF b = <<>> THEN NoText
  ELSE IF b[1] >= 32 THEN << 0 >> \o b
  ELSE IF b[1] = 16 THEN << b[3] >> \o Drop(b, 3)
  ELSE IF b[1] = 21 THEN b
  ELSE << b[1] + 4 >> \o Tail(b)

\* A text the written form of which is read back as the same text
TextRoundTrips(s) ==
  /\ Cp(s) \in Pages
  /\ Len(s) = 1 => Cp(s) = 0
  /\ Cp(s) = 0 /\ Len(s) > 1 => s[2] >= 32

-----------------------------------------------------------------------------
(* Characters                                                              *)

\* UTF-8 of a code point
Utf8Of(c) ==
  IF c < 128 THEN << c >>
  ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
  ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
  ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>

\* Length of the character announced by its first byte; 0: none begins so
Utf8Len(b) == IF b < 128 THEN 1 ELSE IF b < 194 THEN 0 ELSE IF b < 224 THEN 2
              ELSE IF b < 240 THEN 3 ELSE IF b < 245 THEN 4 ELSE 0
IsCont(b) == b \in 128 .. 191
CodeOf(s) ==
  CASE Len(s) = 1 -> s[1]
    [] Len(s) = 2 -> 64 * (s[1] - 192) + (s[2] - 128)
    [] Len(s) = 3 -> 4096 * (s[1] - 224) + 64 * (s[2] - 128) + (s[3] - 128)
    [] Len(s) = 4 -> 262144 * (s[1] - 240) + 4096 * (s[2] - 128) + 64 * (s[3] - 128) + (s[4] - 128)
Scalar(c) == c <= 1114111 /\ c \notin 55296 .. 57343

\* The character at the front of s has this many bytes; 0: not well formed
CharLen(s) ==
  LET n == Utf8Len(s[1])
  IN  IF n = 0 \/ n > Len(s) THEN 0
      ELSE IF \E i \in 2 .. n : ~ IsCont(s[i]) THEN 0
      ELSE IF Scalar(CodeOf(Take(s, n))) /\ Utf8Of(CodeOf(Take(s, n))) = Take(s, n) THEN n
      ELSE 0

\* Characters of s; << -1 >> at the end if s is not well formed
RECURSIVE Utf8Chars(_)
Utf8Chars(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET n == CharLen(s) IN IF n = 0 THEN << 0 - 1 >> ELSE << CodeOf(Take(s, n)) >> \o Utf8Chars(Drop(s, n))

\* The same, iteratively (for long texts)
Utf8Step(a, b) ==
  \* a: [ok, need: continuation bytes missing, cur: bytes of the character]
  IF ~ a.ok THEN a
  ELSE IF a.cur = <<>> THEN (IF Utf8Len(b) = 0 THEN [a EXCEPT !.ok = FALSE]
                             ELSE IF Utf8Len(b) = 1 THEN [a EXCEPT !.out = Append(@, b)]
                             ELSE [a EXCEPT !.cur = << b >>])
  ELSE LET c == Append(a.cur, b)
       IN  IF ~ IsCont(b) THEN [a EXCEPT !.ok = FALSE]
           ELSE IF Len(c) < Utf8Len(c[1]) THEN [a EXCEPT !.cur = c]
           ELSE IF CharLen(c) = 0 THEN [a EXCEPT !.ok = FALSE]
           ELSE [a EXCEPT !.cur = <<>>, !.out = Append(@, CodeOf(c))]
Utf8Run(s) == FoldLeft(Utf8Step, [ok |-> TRUE, cur |-> <<>>, out |-> <<>>], s)
Utf8Ok(s) == LET a == Utf8Run(s) IN a.ok /\ a.cur = <<>>
Utf8Decode(s) == Utf8Run(s).out

Question == 63

\* What a byte of a single byte page prints as
PrintByte(cp, b) ==
  IF b <= 127 THEN << b >>
  ELSE IF b < 160 THEN <<>>
  ELSE IF cp \in SinglePages /\ Page[cp][b - 159] /= 0 THEN << Page[cp][b - 159] >>
  ELSE << Question >>

Printed(s) ==
  IF Cp(s) = Utf8 THEN Utf8Decode(Data(s))
  ELSE FoldLeft(LAMBDA a, b : a \o PrintByte(Cp(s), b), <<>>, Data(s))

\* Bytes of a page by character
ByteOf == [cp \in SinglePages |->
              [c \in { Page[cp][i] : i \in 1 .. 96 } \ {0} |->
                 159 + (CHOOSE i \in 1 .. 96 : Page[cp][i] = c)]]

\* ASCII stand-ins for quotation marks and the ellipsis
StandIn(c) ==
  IF c \in {171, 187, 8220, 8221, 8223} THEN << 34 >>
  ELSE IF c \in {8216, 8217, 8219} THEN << 39 >>
  ELSE IF c = 8230 THEN << 46, 46, 46 >>
  ELSE << Question >>

\* What a character becomes in page cp
Coded(cp, c) ==
  IF cp = Utf8 THEN Utf8Of(c)
  ELSE IF c <= 127 THEN << c >>
  ELSE IF c < 160 THEN <<>>
  ELSE IF c \in DOMAIN ByteOf[cp] THEN << ByteOf[cp][c] >>
  ELSE StandIn(c)

Encode(cs, cp) == << cp >> \o FoldLeft(LAMBDA a, c : a \o Coded(cp, c), <<>>, cs)

-----------------------------------------------------------------------------
(* Splitting and truncating                                                *)

Boundary(d, k) == k = Len(d) \/ ~ IsCont(d[k + 1])

\* pieces is a legal split of text s in pieces of at most n bytes
IsSplit(s, n, pieces) ==
  /\ Concat([i \in 1 .. Len(pieces) |-> Data(pieces[i])]) = Data(s)
  /\ \A i \in 1 .. Len(pieces) :
       /\ Cp(pieces[i]) = Cp(s)
       /\ TextSize(pieces[i]) <= n
       /\ Len(pieces[i]) > 1 \/ Len(s) = 1
       /\ (Cp(s) = Utf8 /\ Utf8Ok(Data(s))) => Utf8Ok(Data(pieces[i]))

Dots == << 46, 46, 46 >>

\* r is a legal truncation of s to n bytes
IsTruncation(s, n, r) ==
  IF Len(s) - 1 <= n THEN r = s
  ELSE /\ Cp(r) = Cp(s)
       /\ Len(r) - 1 \in 3 .. n
       /\ LET k == Len(r) - 1 - 3
          IN  /\ Data(r) = Take(Data(s), k) \o Dots
              /\ Cp(s) /= Utf8 => k = n - 3
              \* the last character boundary that leaves room for the dots
              /\ (Cp(s) = Utf8 /\ Utf8Ok(Data(s))) =>
                    /\ Utf8Ok(Take(Data(s), k))
                    /\ \A j \in k + 1 .. n - 3 : ~ Boundary(Data(s), j)
=============================================================================
