----------------------------- MODULE Trace_Path -----------------------------
(***************************************************************************)
(* Recorded paths (C28): tables sent on several lines (PIDs), the stream   *)
(* (wire) made of their packets and others, and the tables received. A     *)
(* line may carry tables of several kinds. One step per line. The          *)
(* specification reads the wire, too.                                      *)
(***************************************************************************)
EXTENDS Trace, Tables, Packetizer

\* The payload packets of a PID
OfPid(d, pid) ==
  LET n == Len(d) \div PacketSize
      mine(k) == LET a == PacketSize * (k - 1) IN
                 256 * (d[a + 2] % 32) + d[a + 3] = pid /\ Bit(d[a + 4], 4) = 1
      ks == SetToSortSeq({ k \in 1 .. n : mine(k) }, LAMBDA a, b : a < b)
  IN  Concat([i \in 1 .. Len(ks) |-> PacketAt(d, ks[i])])

\* tabs: the table being received, per kind
RECURSIVE Received(_, _, _)
Received(secs, i, tabs) ==
  IF i > Len(secs) THEN <<>>
  ELSE LET kind == KindOf(secs[i][1])
       IN  IF kind = "none" THEN Received(secs, i + 1, tabs)
           ELSE LET n == Accumulate(kind, tabs[kind], secs[i], Len(secs[i]))
                IN  IF Final(kind, secs[i])
                    THEN << [kind |-> kind, t |-> n] >> \o Received(secs, i + 1, [tabs EXCEPT ![kind] = NoTable(kind)])
                    ELSE Received(secs, i + 1, [tabs EXCEPT ![kind] = n])

\* A schedule runs over several table ids; an event table without events
\* sends nothing
Alike(kind, a, b) ==
  IF kind = "eit" /\ a.hd[1] >= 80
  THEN a.items = b.items /\ Drop(a.hd, 1) = Drop(b.hd, 1) /\ (b.hd[1] \div 16) = (a.hd[1] \div 16)
  ELSE a = b
Same(x, y) == Len(x) = Len(y) /\ \A i \in 1 .. Len(x) : x[i].kind = y[i].kind /\ Alike(x[i].kind, x[i].t, y[i].t)

TSteps(h) == Len(h.lines)
TStart(h) == 0
TApply(h, i, a) ==
  LET q == h.lines[i]
      d == OfPid(h.wire, q.pid)
  IN  Judge(IF h.st /= "ok" THEN "panic"
            ELSE IF h.read /= Len(h.wire) \div PacketSize THEN "packets lost in reading"
            ELSE IF ~ IsPackets(d, q.pid, q.cc) THEN "not a gapless packetisation"
            ELSE IF ~ Same(q.sent, Received(SectionsIn(d), 1, [z \in Kinds |-> NoTable(z)])) THEN "stream does not carry the tables sent"
            ELSE IF ~ Same(q.sent, q.got) THEN "received other tables than sent"
            ELSE "ok")
=============================================================================
