----------------------------- MODULE Trace_Pack -----------------------------
(***************************************************************************)
(* Recorded packetising (C05): calls appending to one output.              *)
(*   pre   what the output held before, pid, cc                            *)
(*   calls each: st, one (a single section, sec, was packetised; else a    *)
(*         table), sec, len (bytes in the output afterwards), cc           *)
(*   out   the output at the end                                           *)
(***************************************************************************)
EXTENDS Trace, Packetizer

TSteps(h) == Len(h.calls)
TStart(h) == [cc |-> h.cc, len |-> Len(h.pre)]
TApply(h, i, a) ==
  LET c == h.calls[i]
      add == SubSeq(h.out, a.len + 1, c.len)
  IN  [ s |-> [cc |-> c.cc, len |-> c.len],
        v |-> IF c.st /= "ok" THEN "panic"
              ELSE IF Len(h.out) < Len(h.pre) \/ Take(h.out, Len(h.pre)) /= h.pre THEN "output was changed"
              ELSE IF c.len < a.len \/ Len(h.out) < c.len THEN "output was shortened"
              ELSE IF c.one THEN
                ( IF c.sec = <<>> THEN (IF add = <<>> /\ c.cc = a.cc THEN "ok" ELSE "packets for nothing")
                  ELSE IF add /= SectionBytes(c.sec, h.pid, a.cc) THEN "wrong packets"
                  ELSE IF c.cc /= NextCc(c.sec, a.cc, PacketSize - 4) THEN "wrong counter"
                  ELSE "ok" )
              ELSE IF ~ IsPackets(add, h.pid, a.cc) THEN "not a gapless packetisation"
              ELSE IF c.cc /= (a.cc + (Len(add) \div PacketSize)) % 16 THEN "wrong counter"
              ELSE "ok" ]
=============================================================================
