------------------------------- MODULE MC_C04 -------------------------------
(***************************************************************************)
(* A sealed section verifies; changed within a window of up to 32 bits it  *)
(* does not. Windows of 8 bits are enumerated completely at every bit      *)
(* position; wider ones with all patterns of two or three changed bits.    *)
(***************************************************************************)
EXTENDS Section
Msgs == {<<0>>, <<7, 255, 1, 0, 190>>}
VARIABLES msg, at, pat
Bodies == { << 66, 240, 0 >> \o b : b \in Msgs }
Init == msg \in Bodies /\ at = -1 /\ pat = {}
Bits32 == { {0} \cup x : x \in (SUBSET (1 .. 7)) } \cup { {0, k} : k \in 1 .. 31 } \cup { {0, k, 31} : k \in 1 .. 30 }
Next == /\ at = -1 /\ msg' = msg
        /\ at' \in 0 .. (8 * Len(Seal(msg)) - 1)
        /\ pat' \in { q \in Bits32 : \A k \in q : at' + k < 8 * Len(Seal(msg)) }
RECURSIVE Flip(_, _)
Flip(s, ks) == IF ks = {} THEN s
               ELSE LET k == CHOOSE x \in ks : TRUE
                        b == Pow2[7 - (k % 8)]
                        i == (k \div 8) + 1
                    IN  Flip([s EXCEPT ![i] = IF Bit(@, 7 - (k % 8)) = 1 THEN @ - b ELSE @ + b], ks \ {k})
Verify(s) == W32(s, Len(s) - 3) = Crc32(Take(s, Len(s) - 4))
Good == at = -1 => Verify(Seal(msg)) /\ SecLen(Seal(msg)) = Len(Seal(msg))
                   /\ Crc32(Seal(msg)) = << 0, 0 >>
Noticed == at >= 0 => ~ Verify(Flip(Seal(msg), { at + k : k \in pat }))
=============================================================================
