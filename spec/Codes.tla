------------------------------- MODULE Codes --------------------------------
(***************************************************************************)
(* Codes of the delivery systems (EN 300 468 6.2.13) and identifiers fixed *)
(* by the standards, by what they mean.                                    *)
(*                                                                         *)
(* Code[field][meaning] is the value of the field.                         *)
(***************************************************************************)
EXTENDS Descriptors

Fec == ("none defined" :> 0) @@ ("1/2" :> 1) @@ ("2/3" :> 2) @@ ("3/4" :> 3) @@ ("5/6" :> 4) @@ ("7/8" :> 5)
       @@ ("8/9" :> 6) @@ ("3/5" :> 7) @@ ("4/5" :> 8) @@ ("9/10" :> 9) @@ ("no coding" :> 15)

Code == [
  position     |-> ("west" :> 0) @@ ("east" :> 1),
  polarisation |-> ("horizontal" :> 0) @@ ("vertical" :> 1) @@ ("left" :> 2) @@ ("right" :> 3),
  rolloff      |-> ("0.35" :> 0) @@ ("0.25" :> 1) @@ ("0.20" :> 2),
  satellite    |-> ("auto" :> 0) @@ ("QPSK" :> 1) @@ ("8PSK" :> 2) @@ ("16QAM" :> 3),
  cable        |-> ("none defined" :> 0) @@ ("16QAM" :> 1) @@ ("32QAM" :> 2) @@ ("64QAM" :> 3) @@ ("128QAM" :> 4)
                   @@ ("256QAM" :> 5),
  outer        |-> ("none defined" :> 0) @@ ("no coding" :> 1) @@ ("RS(204/188)" :> 2),
  fec          |-> Fec,
  bandwidth    |-> ("8 MHz" :> 0) @@ ("7 MHz" :> 1) @@ ("6 MHz" :> 2) @@ ("5 MHz" :> 3),
  terrestrial  |-> ("QPSK" :> 0) @@ ("16QAM" :> 1) @@ ("64QAM" :> 2),
  hierarchy    |-> ("none, native" :> 0) @@ ("1, native" :> 1) @@ ("2, native" :> 2) @@ ("4, native" :> 3)
                   @@ ("none, in-depth" :> 4) @@ ("1, in-depth" :> 5) @@ ("2, in-depth" :> 6) @@ ("4, in-depth" :> 7),
  rate         |-> ("1/2" :> 0) @@ ("2/3" :> 1) @@ ("3/4" :> 2) @@ ("5/6" :> 3) @@ ("7/8" :> 4),
  guard        |-> ("1/32" :> 0) @@ ("1/16" :> 1) @@ ("1/8" :> 2) @@ ("1/4" :> 3),
  mode         |-> ("2k" :> 0) @@ ("8k" :> 1) @@ ("4k" :> 2) ]

\* Bits of each field
Width == [ position |-> 1, polarisation |-> 2, rolloff |-> 2, satellite |-> 2, cable |-> 8, outer |-> 4, fec |-> 4,
           bandwidth |-> 3, terrestrial |-> 2, hierarchy |-> 3, rate |-> 3, guard |-> 2, mode |-> 2 ]

\* Descriptor of a transponder given by meanings (fixed frequency and rate)
\*   satellite    m = << position, polarisation, roll-off, S2, modulation, fec >>
\*   cable        m = << outer, modulation, fec >>
\*   terrestrial  m = << bandwidth, modulation, hierarchy, rate hp, rate lp, guard, mode >>
Delivery(system, m) ==
  CASE system = "satellite" ->
         [t |-> 67, k |-> 1, s |-> <<>>,
          n |-> << 1238, 0, 780, Code.position[m[1]], Code.polarisation[m[2]], Code.rolloff[m[3]], m[4],
                   Code.satellite[m[5]], 27500, Code.fec[m[6]] >>]
    [] system = "cable" ->
         [t |-> 68, k |-> 1, s |-> <<>>,
          n |-> << 34600, 0, Code.outer[m[1]], Code.cable[m[2]], 6875, Code.fec[m[3]] >>]
    [] system = "terrestrial" ->
         [t |-> 90, k |-> 1, s |-> <<>>,
          n |-> << 50000, 0, Code.bandwidth[m[1]], 1, 1, 1, Code.terrestrial[m[2]], Code.hierarchy[m[3]],
                   Code.rate[m[4]], Code.rate[m[5]], Code.guard[m[6]], Code.mode[m[7]], 0 >>]

\* Packet identifiers
PidOf == ("PAT" :> 0) @@ ("NIT" :> 16) @@ ("SDT" :> 17) @@ ("EIT" :> 18) @@ ("TDT" :> 20) @@ ("TOT" :> 20)
         @@ ("null" :> 8191) @@ ("none" :> 8192)
NullPacket == << 71, 31, 255, 16 >> \o Rep(255, 184)
FillPacket == Rep(255, 188)
=============================================================================
