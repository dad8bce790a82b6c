------------------------------- MODULE MC_C11 -------------------------------
(***************************************************************************)
(* A sender of an event schedule with few and short segments, cutting the  *)
(* events of a segment into sections anywhere, and a receiver that looks   *)
(* for the events of a time in the sections of that time's segment.        *)
(***************************************************************************)
EXTENDS EitSchedule

CONSTANTS Starts, MCItems, FirstDay

VARIABLES tb, parts, phase
vars == << tb, parts, phase >>

Ev(i, x) == [n |-> << i, FirstDay + (x \div DaySeconds), x % DaySeconds, 60, 0, 0 >>, d |-> <<>>]
Ordered(z) == \A i \in 1 .. Len(z) - 1 : z[i] <= z[i + 1]
Hd == << 80, 3, 4, 5, 6 >>

Init == /\ \E n \in 1 .. MCItems : \E z \in [1 .. n -> Starts] :
             Ordered(z) /\ z[1] < DaySeconds /\ tb = [hd |-> Hd, ds |-> <<>>, items |-> [i \in 1 .. n |-> Ev(i, z[i])]]
        /\ parts = <<>> /\ phase = "send"

Seg(x) == SegmentOf(tb.items[1], x)
LastSeg == Seg(tb.items[Len(tb.items)])
InSeg(s) == SelectSeq(tb.items, LAMBDA x : Seg(x) = s)

\* Send the next segment in k sections, the entries cut at any place
Segment == /\ phase = "send"
           /\ LET s == Len(parts) IN
              /\ s <= LastSeg
              /\ \E k \in 1 .. SecPerSeg : \E c \in [1 .. k -> 0 .. Len(InSeg(s))] :
                   /\ SumSeq(c) = Len(InSeg(s))
                   /\ parts' = Append(parts, [i \in 1 .. k |-> SubSeq(InSeg(s), SumSeq(Take(c, i - 1)) + 1, SumSeq(Take(c, i)))])
           /\ UNCHANGED << tb, phase >>
Finish == phase = "send" /\ Len(parts) > LastSeg /\ phase' = "done" /\ UNCHANGED << tb, parts >>
Next == Segment \/ Finish

TableOf(s) == 80 + (s \div SegPerTable)
LastIn(s) == (SecPerSeg * (s % SegPerTable)) + Len(parts[s + 1]) - 1
LastOfTable(s) == LastIn(Min2(LastSeg, (SegPerTable * (s \div SegPerTable)) + SegPerTable - 1))
SectionOf(s, i) == EncSection("eit", [Hd EXCEPT ![1] = TableOf(s)], <<>>, parts[s + 1][i],
                              (SecPerSeg * (s % SegPerTable)) + i - 1, LastOfTable(s), << LastIn(s), TableOf(LastSeg) >>)
Secs == Concat([j \in 1 .. Len(parts) |-> [i \in 1 .. Len(parts[j]) |-> SectionOf(j - 1, i)]])

\* What a receiver that knows the day looks up for a time
Lookup(q, x) ==
  LET s == Seg(x)
      hits == SelectSeq(q, LAMBDA b : b[1] = TableOf(s) /\ (b[7] \div SecPerSeg) = s % SegPerTable)
  IN  Concat([i \in 1 .. Len(hits) |-> DecSection("eit", hits[i]).items])

Legal == phase = "done" => IsSchedule(tb, Secs)
Found == phase = "done" => LET q == Secs IN \A i \in 1 .. Len(tb.items) : Lookup(q, tb.items[i]) = InSeg(Seg(tb.items[i]))
\* Losing, repeating, exchanging or renumbering sections is noticed, and the
\* listed deviation is not taken for a right schedule
Strict == phase = "done" =>
  LET q == Secs
      m == Len(q)
  IN
  /\ ~ IsLateSchedule(tb, q)
  /\ ~ IsSchedule(tb, Take(q, m - 1)) \/ m = 1
  /\ ~ IsSchedule(tb, q \o << q[m] >>)
  /\ \A i \in 1 .. m, f \in {1, 7, 8, 13, 14} :
       ~ IsSchedule(tb, [q EXCEPT ![i] = LET b == [q[i] EXCEPT ![f] = (@ + 1) % 256] IN Seal(Take(b, Len(b) - 4))])
  /\ \A i \in 1 .. m - 1 : ~ IsSchedule(tb, [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]])
=============================================================================
