------------------------------ MODULE OwnTable ------------------------------
(***************************************************************************)
(* A table of the program's own: a list of sections begun with a header    *)
(* (table id, header length, version) and continued as the program likes.  *)
(* It is sent section by section: numbers are entered, the program's last  *)
(* word is asked for, length and checksum are completed.                   *)
(***************************************************************************)
EXTENDS Packetizer, Section

\* A new section with a header of n >= 3 bytes
NewSection(tid, n, ver) ==
  [i \in 1 .. n |-> CASE i = 1 -> tid
                      [] i = 2 -> 176
                      [] i = 6 -> 193 + 2 * (ver % 32)
                      [] OTHER -> 0]

Begun(x) == NewSection(x.tid, x.n, x.ver) \o x.add

\* The last word: byte at becomes v, changed by the number of the section
\* (mode 1) or of the last one (mode 2)
LastWord(b, w) ==
  IF w = <<>> THEN b
  ELSE [b EXCEPT ![w[1]] = CASE w[2] = 0 -> w[3] [] w[2] = 1 -> (b[7] + w[3]) % 256 [] w[2] = 2 -> (b[8] + w[3]) % 256]

Numbered(b, i, m) == [b EXCEPT ![7] = i % 256, ![8] = m % 256]

\* Section i of the list l as it is sent
Sent(l, w, i) == Seal(LastWord(Numbered(l[i], i - 1, Len(l) - 1), w))
=============================================================================
