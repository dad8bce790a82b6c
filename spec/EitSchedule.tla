---------------------------- MODULE EitSchedule -----------------------------
(***************************************************************************)
(* Event schedule, ETSI TS 101 211 4.1.4: the time from midnight (UTC)     *)
(* before the first event is cut into segments of three hours; segment s   *)
(* is sent in table base + s div 32, sections 8 * (s mod 32) .. + 7.       *)
(***************************************************************************)
EXTENDS Tables

CONSTANTS SegSeconds,    \* 10800
          DaySeconds,    \* 86400
          SegPerTable,   \* 32
          SecPerSeg      \* 8

\* Segment of entry x in a schedule beginning with entry f
SegmentOf(f, x) == ((x.n[2] - f.n[2]) * (DaySeconds \div SegSeconds)) + (x.n[3] \div SegSeconds)

Base(tid) == 16 * (tid \div 16)

\* The segment a section is in, by its table id and number
SegmentIn(base, b) == SegPerTable * (b[1] - base) + (b[7] \div SecPerSeg)

(* The sections carry the schedule, place(x) being the segment the entry x *)
(* is to be found in and last the last segment.                            *)
Carries(t, secs, Place(_), last) ==
  LET m == Len(secs)
      base == Base(t.hd[1])
      e == [i \in 1 .. m |-> Entries("eit", EntryBytes("eit", secs[i]))]
      cnt == [i \in 1 .. m |-> Len(e[i])]
      at == [i \in 1 .. m + 1 |-> SumSeq(Take(cnt, i - 1))]
      seg == [i \in 1 .. m |-> SegmentIn(base, secs[i])]
      \* numbers of the last section of section i's table and segment
      ends == { i \in 1 .. m : i = m \/ secs[i + 1][1] /= secs[i][1] }
      lastOfTable == [i \in 1 .. m |-> LET S == { j \in ends : j >= i } IN secs[CHOOSE x \in S : \A y \in S : x <= y][7]]
      lastOfSeg == [i \in 1 .. m |-> secs[CHOOSE j \in i .. m : seg[j] = seg[i] /\ (j = m \/ seg[j + 1] /= seg[i])][7]]
  IN  /\ m >= 1
      /\ at[m + 1] = Len(t.items)
      \* the first section of segment 0, then the next of the same or the
      \* first of the next segment
      /\ secs[1][1] = base /\ secs[1][7] = 0
      /\ \A i \in 1 .. m - 1 :
           \/ seg[i + 1] = seg[i] /\ secs[i + 1][7] = secs[i][7] + 1
           \/ seg[i + 1] = seg[i] + 1 /\ secs[i + 1][7] = SecPerSeg * (seg[i + 1] % SegPerTable)
      /\ seg[m] = last
      /\ \A i \in 1 .. m :
           /\ Len(secs[i]) <= MaxSection("eit")
           /\ \A j \in at[i] + 1 .. at[i + 1] : Place(t.items[j]) = seg[i]
           /\ secs[i] = EncSection("eit", [t.hd EXCEPT ![1] = secs[i][1]], <<>>, SubSeq(t.items, at[i] + 1, at[i + 1]),
                                   secs[i][7], lastOfTable[i], << lastOfSeg[i], secs[m][1] >>)

IsSchedule(t, secs) ==
  LET f == t.items[1] IN
  Carries(t, secs, LAMBDA x : SegmentOf(f, x), SegmentOf(f, t.items[Len(t.items)]))

\* The deviation listed in known-findings.txt: the events of the first event's
\* segment are sent with those of the next one.
IsLateSchedule(t, secs) ==
  LET f == t.items[1]
      s == SegmentOf(f, f)
      l0 == SegmentOf(f, t.items[Len(t.items)])
  IN  Carries(t, secs, LAMBDA x : IF SegmentOf(f, x) = s THEN s + 1 ELSE SegmentOf(f, x), Max2(l0, s + 1))
=============================================================================
