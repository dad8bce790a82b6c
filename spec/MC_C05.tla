------------------------------- MODULE MC_C05 -------------------------------
(***************************************************************************)
(* Packetiser and receiver together: sections of every size go through     *)
(* small packets, with running counters; each is received as sent, right   *)
(* after its last packet, and the counters never have a gap.               *)
(***************************************************************************)
EXTENDS Packetizer, Receiver
CONSTANTS Pays, Sizes, MaxSec
VARIABLES cc, rx, n, queue, cur, got, pay
vars == << cc, rx, n, queue, cur, got, pay >>
Body(size) == Seal(<< 66, 240, 0 >> \o [i \in 1 .. (size - 7) |-> (i * 29 + size) % 256])
Init == pay \in Pays /\ cc \in {0, 13} /\ rx = RxInit /\ n = 0 /\ queue = <<>> /\ cur = <<>> /\ got = <<>>
Begin == /\ queue = <<>> /\ n < MaxSec /\ n' = n + 1
         /\ \E size \in Sizes : LET s == Body(size) IN
              /\ cur' = s /\ queue' = Packetize(s, cc, pay) /\ cc' = NextCc(s, cc, pay)
         /\ got' = <<>> /\ UNCHANGED << rx, pay >>
Send == /\ queue /= <<>>
        /\ LET o == RxStep(rx, Head(queue)) IN rx' = o.rx /\ got' = o.done
        /\ queue' = Tail(queue) /\ UNCHANGED << cc, n, cur, pay >>
Next == Begin \/ Send
WellFormed == \A k \in 1 .. Len(queue) : Len(queue[k].pay) = pay
                /\ (k < Len(queue) => queue[k + 1].cc = (queue[k].cc + 1) % 16)
                /\ (k = Len(queue) => cc = (queue[k].cc + 1) % 16)
Received == (queue = <<>> /\ n > 0 /\ cur /= <<>>) => (got = << cur >> /\ CrcOk(cur))
Early == queue /= <<>> => got = <<>>
=============================================================================
