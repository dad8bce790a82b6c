------------------------------- MODULE MC_C28 -------------------------------
(***************************************************************************)
(* Several senders, each with a list of tables for its PID, share a        *)
(* channel. Packets carry Pay bytes of payload. At the other end one       *)
(* receiver per PID feeds the parsers of all tables. The channel may also  *)
(* carry packets without payload and packets of other PIDs.                *)
(***************************************************************************)
EXTENDS Tables, Receiver, Packetizer

CONSTANTS Pay, MaxOther

VARIABLES todo,     \* per line: packets still to send
          rx,       \* per line: receiver
          now, got, \* per line: table being parsed, tables received
          other
vars == << todo, rx, now, got, other >>

Item(n, d) == [n |-> n, d |-> d]
D == << Raw(200, << 7 >>) >>
\* Tables as lists of sections
PatA == << EncSection("pat", << 3, 2 >>, <<>>, << Item(<< 3, 4 >>, <<>>) >>, 0, 1, <<>>),
           EncSection("pat", << 3, 2 >>, <<>>, << Item(<< 5, 4 >>, <<>>) >>, 1, 1, <<>>) >>
PatB == << EncSection("pat", << 4, 2 >>, <<>>, <<>>, 0, 0, <<>>) >>
PmtA == << EncSection("pmt", << 1, 2, 3 >>, D, << Item(<< 3, 4 >>, D) >>, 0, 0, <<>>) >>
PmtB == << EncSection("pmt", << 2, 2, 3 >>, D, << Item(<< 3, 4 >>, <<>>) >>, 0, 1, <<>>),
           EncSection("pmt", << 2, 2, 3 >>, <<>>, << Item(<< 6, 4 >>, D) >>, 1, 1, <<>>) >>
TotA == << EncSection("tot", << 17000, 86399 >>, D, <<>>, 0, 0, <<>>) >>
TotB == << EncSection("tot", << 17001, 0 >>, D, <<>>, 0, 0, <<>>) >>

SdtA == << EncSection("sdt", << 66, 7, 1, 2 >>, <<>>, << Item(<< 1, 0, 1, 4, 0 >>, D) >>, 0, 1, <<>>),
           EncSection("sdt", << 66, 7, 1, 2 >>, <<>>, << Item(<< 2, 1, 0, 1, 1 >>, <<>>) >>, 1, 1, <<>>) >>

\* The last line carries tables of two kinds
Lines == << [cc |-> 15, tabs |-> << PatA, PatA, PatB >>],
            [cc |-> 3, tabs |-> << PmtA, PmtB, PmtB >>],
            [cc |-> 0, tabs |-> << TotA, SdtA, TotB >>] >>
Ids == 1 .. Len(Lines)

RECURSIVE Cutting(_, _)
Cutting(secs, cc) == IF secs = <<>> THEN <<>> ELSE Packetize(Head(secs), cc, Pay) \o Cutting(Tail(secs), NextCc(Head(secs), cc, Pay))
RECURSIVE Table(_, _)
Table(kind, secs) ==
  IF secs = <<>> THEN NoTable(kind)
  ELSE Accumulate(kind, Table(kind, Take(secs, Len(secs) - 1)), secs[Len(secs)], Len(secs[Len(secs)]))
Sent == [i \in Ids |-> [j \in 1 .. Len(Lines[i].tabs) |->
           LET k == KindOf(Lines[i].tabs[j][1][1]) IN [kind |-> k, t |-> Table(k, Lines[i].tabs[j])]]]

Init ==
  /\ todo = [i \in Ids |-> Cutting(Concat(Lines[i].tabs), Lines[i].cc)]
  /\ rx = [i \in Ids |-> RxInit]
  /\ now = [i \in Ids |-> [z \in Kinds |-> NoTable(z)]]
  /\ got = [i \in Ids |-> <<>>]
  /\ other = 0

Send(i) ==
  /\ todo[i] /= <<>>
  /\ todo' = [todo EXCEPT ![i] = Tail(@)]
  /\ LET o == RxStep(rx[i], Head(todo[i]))
     IN  /\ rx' = [rx EXCEPT ![i] = o.rx]
         /\ IF o.done = <<>> THEN UNCHANGED << now, got >>
            ELSE LET q == o.done[1]
                     k == KindOf(q[1])
                     \* every parser of the line is given the section
                     n == [z \in Kinds |-> Accumulate(z, now[i][z], q, Len(q))]
                 IN  IF Final(k, q)
                     THEN /\ got' = [got EXCEPT ![i] = Append(@, [kind |-> k, t |-> n[k]])]
                          /\ now' = [now EXCEPT ![i] = [n EXCEPT ![k] = NoTable(k)]]
                     ELSE got' = got /\ now' = [now EXCEPT ![i] = n]
  /\ UNCHANGED other

\* A packet without payload on a line
Idle(i) ==
  /\ other < MaxOther
  /\ rx' = [rx EXCEPT ![i] = RxStep(@, [kind |-> "none", pusi |-> FALSE, cc |-> @.cc, pay |-> <<>>]).rx]
  /\ other' = other + 1
  /\ UNCHANGED << todo, now, got >>

Next == \E i \in Ids : Send(i) \/ Idle(i)

InOrder == LET x == Sent IN \A i \in Ids : Len(got[i]) <= Len(x[i]) /\ got[i] = Take(x[i], Len(got[i]))
Complete == LET x == Sent IN \A i \in Ids : todo[i] = <<>> => got[i] = x[i]
\* A parser holds nothing of tables of other kinds
Apart == \A i \in Ids, z \in Kinds : (\A j \in 1 .. Len(Lines[i].tabs) : KindOf(Lines[i].tabs[j][1][1]) /= z) => now[i][z] = NoTable(z)
\* Nothing is delivered twice or held back
Exact == \A i \in Ids : rx[i].loose = FALSE
=============================================================================
