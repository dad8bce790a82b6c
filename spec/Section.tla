------------------------------ MODULE Section -------------------------------
(***************************************************************************)
(* Sections: length field, checksum (ISO 13818-1 2.4.4, annex A).          *)
(***************************************************************************)
EXTENDS Crc

\* Length of the section beginning with bytes b, 0 if not known yet
SecLen(b) == IF Len(b) < 3 THEN 0 ELSE 3 + 256 * (b[2] % 16) + b[3]

IsWhole(b) == SecLen(b) > 0 /\ Len(b) >= SecLen(b)

\* A section verifies if its last four bytes are the CRC of the others.
CrcOk(b) == Len(b) >= 4 /\ W32(b, Len(b) - 3) = Crc32(Take(b, Len(b) - 4))

\* Completing a section: length, checksum
WithLen(b, n) == [b EXCEPT ![2] = 16 * (@ \div 16) + (n \div 256), ![3] = n % 256]
Seal(b) == LET s == WithLen(b, Len(b) + 1) IN s \o BW32(Crc32(s))
=============================================================================
