---------------------------- MODULE StreamClass -----------------------------
(***************************************************************************)
(* Class of an elementary stream by stream_type (ISO 13818-1 table 2-34)   *)
(* and descriptor tags (EN 300 468 table 12, TS 101 154).                  *)
(***************************************************************************)
EXTENDS Bits

Video == { 1, 2, 16, 27, 36 }      \* 11172, 13818-2, 14496-2, H.264, H.265
Audio == { 3, 4, 15, 17 }          \* 11172, 13818-3, ADTS, LATM
PrivateSections == 5
PrivatePes == 6

\* Descriptors that decide the class of private data
Named == [x \in { 86, 89, 106, 122, 129 } |->
            CASE x = 86 -> "TTX"       \* teletext
              [] x = 89 -> "SUB"       \* subtitling
              [] OTHER  -> "AUDIO"]    \* AC-3, enhanced AC-3, AC-3 (ATSC)
Application == 111                     \* application signalling

FirstNamed(tags) == SelectSeq(tags, LAMBDA x : x \in DOMAIN Named)

Class(type, tags) ==
  IF type \in Video THEN "VIDEO"
  ELSE IF type \in Audio THEN "AUDIO"
  ELSE IF type = PrivateSections
       THEN (IF \E i \in 1 .. Len(tags) : tags[i] = Application THEN "AIT" ELSE "DATA")
  ELSE IF type = PrivatePes
       THEN (IF FirstNamed(tags) = <<>> THEN "DATA" ELSE Named[FirstNamed(tags)[1]])
  ELSE "DATA"
=============================================================================
