------------------------------- MODULE MC_C23 -------------------------------
(* Every stamp is read as written, whatever prefix and markers are. *)
EXTENDS Pes
VARIABLES t, prefix, m
Half == { 0, 1, 127, 128, 129, 255, 256, 16383, 16384, 32766, 32767 } \cup { Pow2[k] : k \in 0 .. 14 }
Init == t \in { << a, b, c >> : a \in 0 .. 7, b \in Half, c \in Half } /\ prefix = 0 /\ m = << 0, 0, 0 >>
Next == /\ m = << 0, 0, 0 >> /\ prefix = 0
        /\ t' = t /\ prefix' \in {0, 2, 3, 15} /\ m' \in { << a, b, c >> : a \in 0 .. 1, b \in 0 .. 1, c \in 0 .. 1 }
ReadBack == /\ Stamp(StampCode(t, prefix, m), 1) = t
            /\ IsByteSeq(StampCode(t, prefix, m))
=============================================================================
