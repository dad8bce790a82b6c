------------------------------- MODULE MC_C18 -------------------------------
(***************************************************************************)
(* Text on the specification alone: for every page, every byte is printed  *)
(* as at most one character, and that character is encoded as that byte;   *)
(* no two bytes of a page print the same; texts of two bytes survive being *)
(* written and read.                                                       *)
(***************************************************************************)
EXTENDS DvbText

VARIABLES cp, b
vars == << cp, b >>
Init == cp \in SinglePages /\ b = 0
Next == b < 255 /\ b' = b + 1 /\ cp' = cp
Spec == Init /\ [][Next]_vars

Inverts == \A c \in { PrintByte(cp, b)[i] : i \in 1 .. Len(PrintByte(cp, b)) } :
             (c /= Question \/ b = Question) => Coded(cp, c) = << b >>
Loses == PrintByte(cp, b) = <<>> <=> b \in 128 .. 159
Distinct == \A d \in 0 .. 255 :
              d /= b /\ PrintByte(cp, d) = PrintByte(cp, b) =>
                \/ PrintByte(cp, b) = <<>> \/ PrintByte(cp, b) = << Question >>
Survives == \A d \in {32, 65, 127, 128, 159, 160, 200, 255} :
              LET x == << cp, b, d >> IN
              TextRoundTrips(x) => TextOk(TextBytes(x)) /\ UnText(TextBytes(x)) = x
\* Characters of the range are coded so that they print as themselves, or as
\* their stand-in
NoOther == \A c \in (8 * b) .. (8 * b + 7) :
             LET p == Printed(<< cp >> \o Coded(cp, c)) IN
             p = << c >> \/ p = StandIn(c) \/ (p = <<>> /\ c \in 128 .. 159)
Utf8Fine == \A c \in { 4352 * b + k : k \in {0, 127, 128, 2047, 2048, 4351} } :
              Scalar(c) => Utf8Ok(Utf8Of(c)) /\ Utf8Decode(Utf8Of(c)) = << c >> /\ CharLen(Utf8Of(c)) = Len(Utf8Of(c))
=============================================================================
