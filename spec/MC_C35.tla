------------------------------- MODULE MC_C35 -------------------------------
(***************************************************************************)
(* A table sent again and again in small packets of bytes; its contents    *)
(* may change between two repetitions. The receiver joins at any byte; the *)
(* channel loses packets and bytes. It never holds anything else than a    *)
(* table that was sent, holds the current one after every repetition that  *)
(* arrived whole, and, as faults end, in the end always.                   *)
(***************************************************************************)
EXTENDS Carousel, Receiver, Packetizer

CONSTANTS Pay, Cuts, MaxFaults

SyncMark == 71
Item(a, b) == [n |-> << a, b >>, d |-> <<>>]
Sect(ver, its, num, last) == EncSection("pat", << ver, 2 >>, <<>>, its, num, last, <<>>)
\* Versions: two sections, then three, then two of the same size as the first
Versions == << << Sect(31, << Item(3, 4) >>, 0, 1), Sect(31, << Item(5, 6), Item(7, 8) >>, 1, 1) >>,
               << Sect(0, << Item(3, 4) >>, 0, 2), Sect(0, <<>>, 1, 2), Sect(0, << Item(9, 1) >>, 2, 2) >>,
               << Sect(1, << Item(3, 5) >>, 0, 1), Sect(1, << Item(5, 6), Item(7, 9) >>, 1, 1) >> >>
Tabs == [k \in 1 .. Len(Versions) |-> ReadSections("pat", NoTable("pat"), Versions[k])]

RECURSIVE Cutting(_, _)
Cutting(secs, cc) == IF secs = <<>> THEN <<>> ELSE Packetize(Head(secs), cc, Pay) \o Cutting(Tail(secs), NextCc(Head(secs), cc, Pay))
\* As bytes: sync, unit start and counter, payload
Bytes(p) == << SyncMark, (IF p.pusi THEN 64 ELSE 0) + p.cc >> \o p.pay
Width == 2 + Pay
Back(b) == [kind |-> "pay", pusi |-> b[2] >= 64, cc |-> b[2] % 64, pay |-> Drop(b, 2)]
\* The sync byte occurs nowhere else
ASSUME \A k \in 1 .. Len(Versions) : \A j \in 1 .. Len(Versions[k]) : \A i \in 1 .. Len(Versions[k][j]) : Versions[k][j][i] /= SyncMark

VARIABLES now,      \* version being sent
          todo, cc, \* its packets still to send, counter of the next repetition
          rd,       \* reader: bytes of a packet begun
          rx, col,
          held,     \* table read last
          faults,
          calm      \* the repetition is arriving whole
vars == << now, todo, cc, rd, rx, col, held, faults, calm >>

\* Joining: the repetition is somewhere in the middle, the packet being sent, too
Init == \E k \in 1 .. 10, c \in 0 .. Width - 1 :
          /\ now = 1
          /\ LET all == Cutting(Versions[1], 13)
                 p   == Drop(all, k - 1)
             IN  /\ k <= Len(all)
                 /\ todo = << Drop(Bytes(p[1]), c) >> \o [i \in 1 .. Len(p) - 1 |-> Bytes(p[i + 1])]
                 /\ cc = (13 + Len(all)) % 16
          /\ rd = <<>> /\ rx = RxInit /\ col = <<>> /\ held = <<>> /\ faults = 0 /\ calm = FALSE

Round(ver) ==
  /\ todo = <<>> /\ now' = ver
  /\ LET all == Cutting(Versions[ver], cc) IN todo' = [i \in 1 .. Len(all) |-> Bytes(all[i])] /\ cc' = (cc + Len(all)) % 16
  /\ calm' = (rd = <<>>)
  /\ UNCHANGED << rd, rx, col, held, faults >>

\* The reader: bytes in front of a sync byte are left out
FromSync(b) == LET r == { i \in 1 .. Len(b) : b[i] = SyncMark } IN IF r = {} THEN <<>> ELSE Drop(b, (CHOOSE i \in r : \A j \in r : i <= j) - 1)
Arrives(b) ==
  LET all  == IF rd = <<>> THEN FromSync(b) ELSE rd \o b
      full == Len(all) >= Width
      o    == IF full THEN RxStep(rx, Back(Take(all, Width))) ELSE [rx |-> rx, done |-> <<>>]
      c    == CollectAll(col, SelectSeq(o.done, CrcOk))
  IN  /\ rd' = IF full THEN FromSync(Drop(all, Width)) ELSE all
      /\ rx' = o.rx /\ col' = c.col
      /\ held' = IF c.new = <<>> THEN held ELSE << c.new[1].t >>

Deliver == /\ todo /= <<>> /\ Arrives(todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED << now, cc, faults, calm >>
Lose == /\ todo /= <<>> /\ faults < MaxFaults /\ faults' = faults + 1 /\ calm' = FALSE /\ todo' = Tail(todo)
        /\ UNCHANGED << now, cc, rd, rx, col, held >>
Clip == /\ todo /= <<>> /\ faults < MaxFaults /\ faults' = faults + 1 /\ calm' = FALSE
        /\ \E k \in Cuts : k <= Len(todo[1]) /\ Arrives(Take(todo[1], k - 1) \o Drop(todo[1], k))
        /\ todo' = Tail(todo) /\ UNCHANGED << now, cc >>

Again == Round(now)
Change == now < Len(Versions) /\ Round(now + 1)
Next == Deliver \/ Lose \/ Clip \/ Again \/ Change
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver) /\ WF_vars(Again)

OnlySent == held = <<>> \/ \E k \in 1 .. now : held = << Tabs[k] >>
Current == (todo = <<>> /\ calm) => held = << Tabs[now] >>
\* What is collected belongs to one version
OneVersion == \A key \in DOMAIN col : \A n \in DOMAIN col[key].have : UnVer(col[key].have[n][6]) = col[key].ver
Settles == <>[](held = << Tabs[now] >>)
=============================================================================
