------------------------------- MODULE MC_C31 -------------------------------
(***************************************************************************)
(* The printed form while header fields are written: one value for each    *)
(* name, and exactly the name of the field written changes.                *)
(***************************************************************************)
EXTENDS Print
CONSTANT MaxOps
VARIABLES p, n
vars == << p, n >>
Start == { << 71, b, 165, d, a, f >> : b \in {0, 85, 255}, d \in {0, 85, 170, 255}, a \in {0, 1, 7, 183}, f \in {0, 16, 170, 255} }
Pairs(q) == HeadPairs(q) \cup AfPairs(q)
Init == p \in Start /\ n = 0
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E x \in {0, 1, 256, 8191} : p' = SetPid(p, x)
           \/ \E x \in {0, 1, 15} : p' = SetCc(p, x)
           \/ \E b \in 0 .. 1 : p' = SetPay(p, b)
           \/ \E b \in 0 .. 1 : p' = SetPusi(p, b)
OneValue == \A x, y \in Pairs(p) : x[1] = y[1] => x = y
Names(q) == { x[1] : x \in Pairs(q) }
Changed == { x \in Names(p) : \E v \in Pairs(p) : v[1] = x /\ v \notin Pairs(p)' }
Exact == [][ /\ Names(p)' = Names(p)
             /\ Changed = (IF Pid(p)' /= Pid(p) THEN {"pid"} ELSE {}) \cup (IF Cc(p)' /= Cc(p) THEN {"cc"} ELSE {})
                          \cup (IF HasPay(p)' /= HasPay(p) THEN {"payload"} ELSE {}) \cup (IF Pusi(p)' /= Pusi(p) THEN {"pusi"} ELSE {}) ]_vars
=============================================================================
