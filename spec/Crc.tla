-------------------------------- MODULE Crc ---------------------------------
(***************************************************************************)
(* The CRC-32 of ISO 13818-1 annex A as division by the polynomial         *)
(* 04C11DB7, most significant bit first, register preset to all ones.      *)
(* The register is << high 16 bits, low 16 bits >>.                        *)
(***************************************************************************)
EXTENDS Bits

PolyHi == 1217    \* 04C1
PolyLo == 7607    \* 1DB7

\* One bit of the division: shift left, subtract the polynomial on carry.
Shift(r) ==
  LET hi == ((2 * r[1]) % 65536) + (r[2] \div 32768)
      lo == (2 * r[2]) % 65536
  IN  IF r[1] >= 32768 THEN << hi ^^ PolyHi, lo ^^ PolyLo >> ELSE << hi, lo >>

RECURSIVE ShiftN(_, _)
ShiftN(r, n) == IF n = 0 THEN r ELSE ShiftN(Shift(r), n - 1)

\* Eight steps only depend on the top byte of the register.
Step8 == [b \in 0 .. 255 |-> ShiftN(<< 256 * b, 0 >>, 8)]

CrcByte(r, b) ==
  LET t == Step8[(r[1] \div 256) ^^ b]
      hi == (r[1] % 256) * 256 + (r[2] \div 256)
      lo == (r[2] % 256) * 256
  IN  << hi ^^ t[1], lo ^^ t[2] >>

CrcInit == << 65535, 65535 >>

Crc32(s) == FoldLeft(CrcByte, CrcInit, s)
=============================================================================
