---------------------------- MODULE Trace_Relay -----------------------------
(***************************************************************************)
(* Recorded sections and tables changed and sent on (C34).                 *)
(*   sections  steps: packet p given to an accumulator; ok: it showed a    *)
(*             section that verifies, which was changed (keep, put, add)   *)
(*             and packetised (pid); len, cc: bytes of out and counter     *)
(*             afterwards                                                  *)
(*   table     secs parsed; steps: changes ops, then packetised            *)
(***************************************************************************)
EXTENDS Trace, Relay, Receiver, Packetizer

Pkt(x) ==
  IF Len(x) = PacketSize THEN Unpack(x)
  ELSE [kind |-> "pay", pusi |-> Pusi(x) = 1, cc |-> Cc(x), pay |-> Drop(x, 4)]

TSteps(h) == Len(h.steps)
TStart(h) ==
  IF h.k = "sections" THEN [rx |-> RxInit, cc |-> h.cc, len |-> 0]
  ELSE [tab |-> ReadSections(h.kind, NoTable(h.kind), h.secs), cc |-> h.cc, len |-> 0]

SectionOn(h, x, a) ==
  LET r    == RxStep(a.rx, Pkt(x.p))
      good == r.done /= <<>> /\ CrcOk(r.done[1])
      c    == ChangedSection(r.done[1], x.keep, x.put, x.add)
      more == SubSeq(h.out, a.len + 1, x.len)
  IN  [ s |-> [rx |-> r.rx, cc |-> x.cc, len |-> x.len],
        v |-> IF x.st /= "ok" THEN "panic"
              ELSE IF x.ok /= good THEN "wrong verdict"
              ELSE IF ~ good THEN (IF more = <<>> THEN "ok" ELSE "input: nothing was sent")
              ELSE IF more /= SectionBytes(c, x.pid, a.cc) THEN "not the changed section"
              ELSE IF x.cc /= NextCc(c, a.cc, PacketSize - 4) THEN "wrong counter"
              ELSE "ok" ]

TableOn(h, x, a) ==
  LET c    == AllChanged(a.tab, x.ops)
      more == SubSeq(h.out, a.len + 1, x.len)
  IN  [ s |-> [tab |-> c, cc |-> x.cc, len |-> x.len],
        v |-> IF x.st /= "ok" THEN "panic"
              ELSE IF ~ IsPackets(more, h.pid, a.cc) THEN "not a packetisation of sections"
              ELSE IF ~ Carries(h.kind, c, SectionsIn(more)) THEN "not the changed table"
              ELSE IF x.cc /= (a.cc + (Len(more) \div PacketSize)) % 16 THEN "wrong counter"
              ELSE "ok" ]

TApply(h, i, a) == IF h.k = "sections" THEN SectionOn(h, h.steps[i], a) ELSE TableOn(h, h.steps[i], a)
=============================================================================
