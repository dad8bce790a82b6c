------------------------------- MODULE MC_C33 -------------------------------
(***************************************************************************)
(* Tables of the program's own on their way through small packets to the   *)
(* receiver: it gets every section once, in order, numbered, verifying,    *)
(* with the program's contents and last word.                              *)
(***************************************************************************)
EXTENDS OwnTable, Receiver
CONSTANTS Pays, Adds, MaxSec, Words
VARIABLES tab, w, pay, i, cc, queue, rx, got
vars == << tab, w, pay, i, cc, queue, rx, got >>

WordOf == << <<>>, << 9, 0, 77 >>, << 9, 1, 250 >>, << 4, 2, 3 >> >>
Init == /\ pay \in Pays /\ w \in { WordOf[k] : k \in Words }
        /\ \E m \in 0 .. MaxSec : \E a \in [1 .. m -> Adds] :
             tab = [k \in 1 .. m |-> Begun([tid |-> 128 + k, n |-> 9, ver |-> 7 * k, add |-> [j \in 1 .. a[k] |-> (31 * j + k) % 256]])]
        /\ i = 0 /\ cc = 14 /\ queue = <<>> /\ rx = RxInit /\ got = <<>>
Begin == /\ queue = <<>> /\ i < Len(tab) /\ i' = i + 1
         /\ LET s == Sent(tab, w, i + 1) IN queue' = Packetize(s, cc, pay) /\ cc' = NextCc(s, cc, pay)
         /\ UNCHANGED << tab, w, pay, rx, got >>
Send == /\ queue /= <<>> /\ queue' = Tail(queue)
        /\ LET o == RxStep(rx, Head(queue)) IN rx' = o.rx /\ got' = got \o o.done
        /\ UNCHANGED << tab, w, pay, i, cc >>
Next == Begin \/ Send

Right(k) ==
  LET s == got[k] b == tab[k] IN
  /\ CrcOk(s) /\ SecLen(s) = Len(s) /\ Len(s) = Len(b) + 4
  /\ s[7] = k - 1 /\ s[8] = Len(tab) - 1
  /\ \A j \in 1 .. Len(b) : j \in {2, 3, 7, 8} \/ (w /= <<>> /\ j = w[1]) \/ s[j] = b[j]
  /\ w /= <<>> => s[w[1]] = (CASE w[2] = 0 -> w[3] [] w[2] = 1 -> (k - 1 + w[3]) % 256 [] w[2] = 2 -> (Len(tab) - 1 + w[3]) % 256)
InOrder == \A k \in 1 .. Len(got) : Right(k)
Complete == queue = <<>> => Len(got) = i
Gapless == \A k \in 1 .. Len(queue) : queue[k].cc = (cc - (Len(queue) - k) + 31) % 16
=============================================================================
