---------------------------- MODULE Trace_Table -----------------------------
(***************************************************************************)
(* Recorded tables (C06 .. C14).                                           *)
(*   enc    table tb packetised (pid, cc -> cc2) behind pre: out; the      *)
(*          sections in the packets parsed: back                           *)
(*   dec    sections parsed: tb                                            *)
(*   hist   steps: buffer b with announced size n given to a parser, which *)
(*          holds tb afterwards                                            *)
(***************************************************************************)
EXTENDS Trace, EitSchedule, Packetizer

\* Which rules an event schedule has to obey: "events" (C10) or all (C11)
CONSTANT Schedules

Pf(tab) == tab.hd[1] \in {78, 79}

\* What a parser holds after the sections of a schedule
EventsKept(tab, back) == back.items = WrittenTable(tab).items /\ back.hd[2] = tab.hd[2] /\ Drop(back.hd, 2) = Drop(tab.hd, 2)

\* The sections carry the events, whatever their numbers
EventsIn(tab, secs) ==
  LET e == Concat([i \in 1 .. Len(secs) |-> Entries("eit", EntryBytes("eit", secs[i]))])
  IN  /\ Len(e) = Len(tab.items)
      /\ \A i \in 1 .. Len(e) : e[i] = EncItem("eit", tab.items[i])
      /\ \A i \in 1 .. Len(secs) :
           /\ CrcOk(secs[i]) /\ secs[i][1] \in Base(tab.hd[1]) .. Base(tab.hd[1]) + 15
           /\ Drop(Idents("eit", secs[i]), 1) = Drop(tab.hd, 1)

EncVerdict(h) ==
  LET out  == Drop(h.out, Len(h.pre))
      secs == SectionsIn(out)
      tab  == h.tb
  IN  IF Take(h.out, Len(h.pre)) /= h.pre THEN "output was changed"
      ELSE IF h.kind = "eit" /\ tab.items = <<>> THEN "ok"
      ELSE IF ~ IsPackets(out, h.pid, h.cc) THEN "not a packetisation of sections"
      ELSE IF h.cc2 /= (h.cc + (Len(out) \div PacketSize)) % 16 THEN "wrong counter"
      ELSE IF h.kind = "eit" /\ ~ Pf(tab) THEN
        ( IF Schedules = "events" THEN (IF EventsIn(tab, secs) /\ EventsKept(tab, h.back) THEN "ok" ELSE "events are not kept")
          ELSE IF ~ EventsKept(tab, h.back) THEN "events are not kept"
          ELSE IF IsSchedule(tab, secs) THEN "ok"
          ELSE IF IsLateSchedule(tab, secs) THEN "known:eit-first-segment"
          ELSE "not a schedule of these events" )
      ELSE IF h.kind = "eit" THEN
        ( IF ~ IsPresentFollowing(tab, secs) THEN "not a present/following table of these events"
          ELSE IF h.back /= WrittenTable(tab) THEN "read back differently" ELSE "ok" )
      ELSE IF h.kind \in {"tdt", "tot"} THEN
        ( IF ~ IsOne(h.kind, tab, secs) THEN "wrong section"
          ELSE IF h.back /= WrittenTable(tab) THEN "read back differently" ELSE "ok" )
      ELSE IF ~ IsCoding(h.kind, tab, secs) THEN "sections do not code the table"
      ELSE IF h.back /= WrittenTable(tab) THEN "read back differently"
      ELSE "ok"

RECURSIVE Parsed(_, _, _, _)
Parsed(kind, tb, secs, i) ==
  IF i > Len(secs) THEN tb ELSE Parsed(kind, Accumulate(kind, tb, secs[i], Len(secs[i])), secs, i + 1)

TSteps(h) == IF h.k = "hist" THEN Len(h.steps) ELSE 1
TStart(h) == IF h.k = "hist" THEN NoTable(h.kind) ELSE 0

Feed(h, i, a) ==
  LET x == h.steps[i] IN
  IF x.st /= "ok" THEN [s |-> a, v |-> "panic"]
  ELSE IF ~ Takes(h.kind, x.b, x.n)
       THEN [s |-> a, v |-> IF x.tb = a THEN "ok" ELSE "changed by a section to be ignored"]
  ELSE IF ~ TimesOk(h.kind, Take(x.b, x.n)) THEN [s |-> x.tb, v |-> "ok"]
  ELSE IF ~ LoopInside(h.kind, Take(x.b, x.n))
       THEN [s |-> x.tb, v |-> IF x.tb.items = a.items /\ x.tb.ds = a.ds THEN "ok" ELSE "read beyond the section"]
  ELSE IF ~ WellFormed(h.kind, Take(x.b, x.n)) /\ ~ DescsOk(h.kind, Take(x.b, x.n)) THEN [s |-> x.tb, v |-> "ok"]
  ELSE LET e == Accumulate(h.kind, a, x.b, x.n)
       IN  [s |-> e, v |-> IF x.tb = e THEN "ok" ELSE "section not taken as it is"]

TApply(h, i, a) ==
  IF h.k = "hist" THEN Feed(h, i, a)
  ELSE Judge(IF h.st /= "ok" THEN "panic"
             ELSE IF h.k = "enc" THEN EncVerdict(h)
             ELSE IF h.tb = Parsed(h.kind, NoTable(h.kind), h.secs, 1) THEN "ok" ELSE "read wrongly")
=============================================================================
