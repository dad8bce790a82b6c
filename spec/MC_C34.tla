------------------------------- MODULE MC_C34 -------------------------------
(***************************************************************************)
(* A program between two lines of small packets: what it receives on one   *)
(* it changes and sends on the other, while packets on both go on and the  *)
(* first may be disturbed. The receiver at the end gets exactly the        *)
(* changed sections of those that arrived, verifying, in order; the first  *)
(* line is received as if nothing was taken from it.                       *)
(***************************************************************************)
EXTENDS Relay, Receiver, Packetizer
CONSTANTS Pays, Lens, MaxSec, Keeps, Adds, MaxFaults
VARIABLES sec, i, q1, c1, rx1, plain, faults, took, q2, c2, rx2, got, want, pay1, pay2
vars == << sec, i, q1, c1, rx1, plain, faults, took, q2, c2, rx2, got, want, pay1, pay2 >>

Content(k, n) == << 66, 176, 0 >> \o [j \in 1 .. n |-> (37 * j + 11 * k) % 256]
Init == /\ \E m \in 1 .. MaxSec : \E a \in [1 .. m -> Lens] : sec = [k \in 1 .. m |-> Seal(Content(k, a[k]))]
        /\ pay1 \in Pays /\ pay2 \in Pays
        /\ i = 0 /\ q1 = <<>> /\ c1 = 15 /\ rx1 = RxInit /\ plain = <<>> /\ faults = 0
        /\ took = <<>> /\ q2 = <<>> /\ c2 = 14 /\ rx2 = RxInit /\ got = <<>> /\ want = <<>>
Begin == /\ q1 = <<>> /\ i < Len(sec) /\ i' = i + 1
         /\ q1' = Packetize(sec[i + 1], c1, pay1) /\ c1' = NextCc(sec[i + 1], c1, pay1)
         /\ UNCHANGED << sec, rx1, plain, faults, took, q2, c2, rx2, got, want, pay1, pay2 >>
\* The program takes a section before the next packet is given to the receiver
Receive == /\ q1 /= <<>> /\ took = <<>> /\ q1' = Tail(q1)
           /\ LET o == RxStep(rx1, Head(q1)) IN
              rx1' = o.rx /\ plain' = plain \o SelectSeq(o.done, CrcOk) /\ took' = SelectSeq(o.done, CrcOk)
           /\ UNCHANGED << sec, i, c1, faults, q2, c2, rx2, got, want, pay1, pay2 >>
Lose == /\ q1 /= <<>> /\ faults < MaxFaults /\ faults' = faults + 1 /\ q1' = Tail(q1)
        /\ UNCHANGED << sec, i, c1, rx1, plain, took, q2, c2, rx2, got, want, pay1, pay2 >>
Change == /\ took /= <<>> /\ q2 = <<>>
          /\ \E keep \in Keeps, n \in Adds, put \in { <<>>, << << 1, 78 >> >>, << << 4, 0 >>, << 1, 200 >> >> } :
               LET b == took[1]
                   c == ChangedSection(b, IF keep < 0 THEN -1 ELSE Min2(keep, Len(b) - 4), put, [j \in 1 .. n |-> (5 * j) % 256])
               IN  /\ want' = Append(want, [was |-> b, keep |-> keep, put |-> put, n |-> n])
                   /\ q2' = Packetize(c, c2, pay2) /\ c2' = NextCc(c, c2, pay2)
          /\ took' = Tail(took)
          /\ UNCHANGED << sec, i, q1, c1, rx1, plain, faults, rx2, got, pay1, pay2 >>
Arrive == /\ q2 /= <<>> /\ q2' = Tail(q2)
          /\ LET o == RxStep(rx2, Head(q2)) IN rx2' = o.rx /\ got' = got \o o.done
          /\ UNCHANGED << sec, i, q1, c1, rx1, plain, faults, took, c2, want, pay1, pay2 >>
Next == Begin \/ Receive \/ Lose \/ Change \/ Arrive

\* Byte j (from 1, but 2 and 3) of what a change makes of b
NewByte(x, j) ==
  LET m == IF x.keep < 0 THEN Len(x.was) - 4 ELSE Min2(x.keep, Len(x.was) - 4)
      p == { k \in 1 .. Len(x.put) : x.put[k][1] = j }
  IN  IF j > m THEN (5 * (j - m)) % 256 ELSE IF p /= {} THEN x.put[CHOOSE k \in p : TRUE][2] ELSE x.was[j]
Right(s, x) ==
  LET m == (IF x.keep < 0 THEN Len(x.was) - 4 ELSE Min2(x.keep, Len(x.was) - 4)) + x.n IN
  /\ Len(s) = m + 4 /\ SecLen(s) = Len(s) /\ CrcOk(s)
  /\ \A j \in 1 .. m : j \in {2, 3} \/ s[j] = NewByte(x, j)
Arrives == /\ Len(got) <= Len(want) /\ \A k \in 1 .. Len(got) : Right(got[k], want[k])
           /\ q2 = <<>> => Len(got) = Len(want)
\* A subsequence of what was sent, everything if nothing was lost
Undisturbed == /\ \A k \in 1 .. Len(plain) : \E j \in 1 .. i : plain[k] = sec[j]
               /\ (faults = 0 /\ q1 = <<>>) => plain = Take(sec, i)
Taken == Len(want) + Len(took) = Len(plain)
=============================================================================
