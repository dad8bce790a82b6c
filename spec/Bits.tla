-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bytes, bit fields and byte strings.                                     *)
(*                                                                         *)
(* A byte is a number 0..255 and a byte string is a sequence of bytes.     *)
(* TLC's integers have 31 bits and a sign, so that wider quantities are    *)
(* kept as sequences of 16-bit words (CRC, 32-bit fields) or as BigNat     *)
(* digit sequences (clocks).                                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Bitwise, FiniteSets, TLC

Byte == 0 .. 255

Pow2 == [n \in 0 .. 30 |-> 2 ^ n]

\* Bits lo .. lo+n-1 of x
Field(x, lo, n) == (x \div Pow2[lo]) % Pow2[n]
Bit(x, k) == Field(x, k, 1)

\* Big-endian numbers at (1-based) position i of byte string s
U8(s, i)  == s[i]
U16(s, i) == 256 * s[i] + s[i + 1]
U24(s, i) == 65536 * s[i] + 256 * s[i + 1] + s[i + 2]

\* Their encodings
B8(x)  == << x % 256 >>
B16(x) == << (x \div 256) % 256, x % 256 >>
B24(x) == << (x \div 65536) % 256, (x \div 256) % 256, x % 256 >>

\* 32-bit numbers as << high 16 bits, low 16 bits >>
W32(s, i) == << U16(s, i), U16(s, i + 2) >>
BW32(w) == B16(w[1]) \o B16(w[2])

Rep(b, n) == [i \in 1 .. n |-> b]

\* s without its first n elements; the first n elements; n elements from i on
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
Mid(s, i, n) == SubSeq(s, i, i + n - 1)

RECURSIVE Concat(_)
\* Concatenation of a sequence of sequences
Concat(ss) ==
  IF ss = <<>> THEN <<>>
  ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE LET h == Len(ss) \div 2 IN Concat(Take(ss, h)) \o Concat(Drop(ss, h))

Map(f(_), s) == [i \in 1 .. Len(s) |-> f(s[i])]

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE IF Len(s) = 1 THEN s[1]
             ELSE LET h == Len(s) \div 2 IN SumSeq(Take(s, h)) + SumSeq(Drop(s, h))

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
IsByteSeq(s) == \A i \in 1 .. Len(s) : s[i] \in Byte
=============================================================================
