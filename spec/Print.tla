------------------------------- MODULE Print --------------------------------
(***************************************************************************)
(* What the printed form of a packet says: << name, value >> pairs.        *)
(***************************************************************************)
EXTENDS TsPacket

YesNo(b) == IF b = 1 THEN "true" ELSE "false"

HeadPairs(p) ==
  { << "sync", IF Sync(p) THEN "true" ELSE "false" >>, << "error", ToString(TErr(p)) >>, << "pusi", YesNo(Pusi(p)) >>,
    << "pid", ToString(Pid(p)) >>, << "scrambling", ToString(Scrambling(p)) >>, << "payload", YesNo(HasPay(p)) >>,
    << "cc", ToString(Cc(p)) >> }

AfFlags == << "af_extension", "private_data", "splicing_point", "OPCR_flag", "PCR_flag", "es_priority", "random_access",
              "discontinuity" >>
AfPairs(p) ==
  IF HasAf(p) = 0 THEN { << "adaptation", "false" >> }
  ELSE { << "length", ToString(AfLen(p)) >> }
       \cup (IF AfLen(p) = 0 THEN {} ELSE { << AfFlags[i], YesNo(Bit(p[6], i - 1)) >> : i \in 1 .. 8 })

\* The clock is shown for an adaptation field that has one.
HasPcr(p) == HasAf(p) = 1 /\ AfLen(p) >= 7 /\ Bit(p[6], 4) = 1
=============================================================================
