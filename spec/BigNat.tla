------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size: sequences of digits to the base Base,      *)
(* least significant first, without leading zeros (0 is << >>).            *)
(* With Base = 10000 all intermediate values fit TLC's integers.           *)
(***************************************************************************)
EXTENDS Bits

CONSTANT Base

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BStrip(_)
BStrip(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN BStrip(Take(a, Len(a) - 1)) ELSE a

RECURSIVE BCarry(_, _, _)
\* Digits i.. of a (each possibly beyond the base), carry c
BCarry(a, i, c) ==
  IF i > Len(a) /\ c = 0 THEN <<>>
  ELSE LET x == Digit(a, i) + c IN << x % Base >> \o BCarry(a, i + 1, x \div Base)

BNorm(a) == BStrip(BCarry(a, 1, 0))

RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE << n % Base >> \o BNat(n \div Base)

BAdd(a, b) == BNorm([i \in 1 .. Max2(Len(a), Len(b)) |-> Digit(a, i) + Digit(b, i)])

RECURSIVE BConv(_, _, _, _)
\* sum of a[i] * b[k+1-i]
BConv(a, b, k, i) ==
  IF i > Len(a) THEN 0
  ELSE (IF k + 1 - i \in 1 .. Len(b) THEN a[i] * b[k + 1 - i] ELSE 0) + BConv(a, b, k, i + 1)

BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE BNorm([k \in 1 .. (Len(a) + Len(b) - 1) |-> BConv(a, b, k, 1)])

RECURSIVE BLtFrom(_, _, _)
BLtFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] /= b[i] THEN a[i] < b[i] ELSE BLtFrom(a, b, i - 1)

BLt(a, b) == IF Len(a) /= Len(b) THEN Len(a) < Len(b) ELSE BLtFrom(a, b, Len(a))
BLe(a, b) == a = b \/ BLt(a, b)

RECURSIVE BBorrow(_, _, _, _)
BBorrow(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET x == a[i] - Digit(b, i) - c
       IN  << IF x < 0 THEN x + Base ELSE x >> \o BBorrow(a, b, i + 1, IF x < 0 THEN 1 ELSE 0)

\* a - b for b <= a
BSub(a, b) == BStrip(BBorrow(a, b, 1, 0))

\* q is a div b
BIsQuot(q, a, b) == b /= <<>> /\ BLe(BMul(q, b), a) /\ BLt(a, BMul(BAdd(q, BNat(1)), b))

RECURSIVE BPow2(_)
BPow2(n) == IF n = 0 THEN BNat(1) ELSE LET h == BPow2(n - 1) IN BAdd(h, h)
=============================================================================
