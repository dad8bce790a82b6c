------------------------------- MODULE MC_C21 -------------------------------
(***************************************************************************)
(* Header fields as independent variables: after any sequence of writes    *)
(* each field reads as last written, all other bits are the initial ones.  *)
(***************************************************************************)
EXTENDS TsPacket
CONSTANT MaxOps
VARIABLES p, ghost, n
vars == << p, ghost, n >>
Start == { << 71, b, c, d, 7 >> : b \in {0, 31, 85, 170, 224, 255}, c \in {0, 165, 255}, d \in {0, 15, 85, 170, 207, 255} }
Read(q) == [err |-> TErr(q), pusi |-> Pusi(q), prio |-> Prio(q), pid |-> Pid(q), scr |-> Scrambling(q),
            af |-> HasAf(q), pay |-> HasPay(q), cc |-> Cc(q), sync |-> q[1], five |-> q[5]]
Init == p \in Start /\ ghost = Read(p) /\ n = 0
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E x \in {0, 1, 255, 256, 4096, 8191} : p' = SetPid(p, x) /\ ghost' = [ghost EXCEPT !.pid = x]
           \/ \E x \in {0, 1, 8, 15} : p' = SetCc(p, x) /\ ghost' = [ghost EXCEPT !.cc = x]
           \/ \E b \in 0 .. 1 : p' = SetPay(p, b) /\ ghost' = [ghost EXCEPT !.pay = b]
           \/ \E b \in 0 .. 1 : p' = SetPusi(p, b) /\ ghost' = [ghost EXCEPT !.pusi = b]
Independent == Read(p) = ghost /\ IsByteSeq(p)
=============================================================================
