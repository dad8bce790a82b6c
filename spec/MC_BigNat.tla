----------------------------- MODULE MC_BigNat ------------------------------
(* BigNat against TLC's own integers *)
EXTENDS BigNat
CONSTANT Top
VARIABLES x, y
Init == x \in 0 .. Top /\ y = 0
Next == y < Top /\ y' = y + 1 /\ x' = x
RECURSIVE Val(_)
Val(a) == IF a = <<>> THEN 0 ELSE a[1] + Base * Val(Tail(a))
Arith ==
  LET a == BNat(x)  b == BNat(y) IN
  /\ Val(a) = x
  /\ Val(BAdd(a, b)) = x + y
  /\ Val(BMul(a, b)) = x * y
  /\ BLt(a, b) = (x < y) /\ BLe(a, b) = (x <= y)
  /\ y <= x => Val(BSub(a, b)) = x - y /\ BSub(a, b) = BNat(x - y)
  /\ BMul(a, b) = BNat(x * y) /\ BAdd(a, b) = BNat(x + y)
  /\ y > 0 => \A q \in {x \div y, (x \div y) + 1} : BIsQuot(BNat(q), a, b) = (q = x \div y)
=============================================================================
