------------------------------- MODULE MC_C22 -------------------------------
(***************************************************************************)
(* Clock arithmetic with a small period: a clock runs, is read, wraps; the *)
(* ticks between two readings are those that really passed (modulo the     *)
(* period), and the signed difference recovers small deviations in both    *)
(* directions. A stream of even pace is extrapolated to the reading it     *)
(* really has, also beyond any number of wraps.                            *)
(***************************************************************************)
EXTENDS Clock
CONSTANTS P, Second     \* period and size of the deviation window
VARIABLES last, run     \* reading taken, ticks passed since then
Init == last \in 0 .. P - 1 /\ run = 0
Next == run < 2 * P /\ run' = run + 1 /\ last' = last
Now == (last + run) % P

TheTicks(a, b) == CHOOSE r \in 0 .. P - 1 : IsTicks(BNat(r), BNat(a), BNat(b), BNat(P))
Unique == \A a \in {last}, b \in {Now} :
            Cardinality({ r \in 0 .. P - 1 : IsTicks(BNat(r), BNat(a), BNat(b), BNat(P)) }) = 1
Right == TheTicks(last, Now) = run % P
Signed == LET d == TheTicks(last, Now) IN
          /\ d < Second => (IF d > Second THEN d - P ELSE d) = d
          /\ (P - d) \in 1 .. Second => TheTicks(Now, last) = P - d

\* Two readings `run` ticks and lb bytes apart, later by k times as many bytes:
\* what a receiver extrapolates, and what it then finds of a deviation e
Estimate(q) == (Now + q) % P
Signs(a, b) == LET d == TheTicks(b, a) IN IF d < Second THEN d ELSE 0 - TheTicks(a, b)
Pace == run < P =>
  \A lb \in 1 .. 2, k \in {1, 2, 5} :
    LET q == (run * k) \div lb
        r == Estimate(q)
    IN  /\ IsStc(BNat(r), BNat(Now), BNat(k), BNat(run), BNat(lb), BNat(q), BNat((Now + q) \div P), BNat(P))
        /\ (lb = 1 => r = (last + (k + 1) * run) % P)
        /\ \A e \in 1 - Second .. Second - 1 : Signs((r + e + P) % P, r) = e
=============================================================================
