--------------------------------- MODULE Pes --------------------------------
(***************************************************************************)
(* The PES packet header of ISO 13818-1 2.4.3.6. Byte k is h[k + 1].       *)
(* Time stamps are << bits 32..30, bits 29..15, bits 14..0 >>.             *)
(***************************************************************************)
EXTENDS Bits

StartCode(h) == h[1] = 0 /\ h[2] = 0 /\ h[3] = 1
StreamId(h)  == h[4]
\* program_stream_map, padding, private_stream_2, ECM, EMM, DSMCC,
\* H.222.1 type E, program_stream_directory have no PES header
Bare == { 188, 190, 191, 240, 241, 242, 248, 255 }
FullSyntax(h) == StreamId(h) \notin Bare
PesLength(h) == U16(h, 5)
PtsFlag(h) == Bit(h[8], 7) = 1
DtsFlag(h) == Bit(h[8], 6) = 1
PesPayload(h) == IF FullSyntax(h) THEN 9 + h[9] ELSE 6

\* '00xx' ts[32..30] marker ts[29..15] marker ts[14..0] marker at position i
Stamp(h, i) == << Field(h[i], 1, 3), 128 * h[i + 1] + Field(h[i + 2], 1, 7),
                  128 * h[i + 3] + Field(h[i + 4], 1, 7) >>
Pts(h) == Stamp(h, 10)
Dts(h) == Stamp(h, 15)

\* Writing a stamp with the given prefix and markers
StampCode(t, prefix, m) ==
  << 16 * prefix + 2 * t[1] + m[1], t[2] \div 128, 2 * (t[2] % 128) + m[2],
     t[3] \div 128, 2 * (t[3] % 128) + m[3] >>
=============================================================================
