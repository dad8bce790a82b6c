------------------------------- MODULE MC_C16 -------------------------------
(***************************************************************************)
(* Descriptors with texts: as MC_C15, with texts of several code pages,    *)
(* empty ones, and extended events around the limit of 255 bytes.          *)
(***************************************************************************)
EXTENDS Descriptors

VARIABLE d
vars == << d >>

Lists(S, m) == UNION { [1 .. k -> S] : k \in 0 .. m }
V(t, n, s) == [t |-> t, k |-> 1, n |-> n, s |-> s]

Texts0 == {<< 0 >>, << 0, 65 >>, << 0, 32, 5 >>, << 1, 200 >>, << 5, 21, 16 >>, << 15, 255 >>, << 21, 195, 169 >>}
Codes == {<< 0, 101, 110, 103 >>, << 0, 32, 0, 255 >>}
Pad(n) == << 0 >> \o Rep(65, n)
Long == { Pad(n) : n \in {120, 247, 248, 249, 250, 251, 252, 253, 254, 255} }

Language == { V(10, [i \in 1 .. Len(x) |-> x[i][1]], [i \in 1 .. Len(x) |-> x[i][2]]) :
                x \in Lists({0, 3, 255} \X Codes, 2) }
Network == { V(64, <<>>, << x >>) : x \in Texts0 \cup Long }
Service == { V(72, << a >>, << x, y >>) : a \in {0, 255}, x \in Texts0, y \in Texts0 }
           \cup { V(72, << 1 >>, << Pad(n), Pad(252 - n) >>) : n \in 0 .. 252 }
Short == { V(77, <<>>, << c, x, y >>) : c \in Codes, x \in Texts0, y \in Texts0 }
         \cup { V(77, <<>>, << << 0, 97, 98, 99 >>, Pad(n), Pad(250 - n) >>) : n \in 0 .. 250 }
Extended == { V(78, << a, 15 - a, Len(x) \div 2 >>, << c, y >> \o x) :
                a \in {0, 7, 15}, c \in Codes, y \in Texts0 \cup Long, x \in [1 .. 2 -> Texts0] \cup [1 .. 4 -> {<< 0 >>, << 9, 66 >>}] \cup {<<>>} }
Offset == { V(88, Concat([i \in 1 .. Len(x) |-> << x[i][1], x[i][2], x[i][3], x[i][4], x[i][5], x[i][6] >>]), [i \in 1 .. Len(x) |-> x[i][7]]) :
              x \in Lists({0, 63} \X {0, 1} \X {0, 1439} \X {0, 24948} \X {0, 86399} \X {61} \X Codes, 1)
                    \cup [1 .. 2 -> {0, 63} \X {1} \X {719} \X {17000} \X {86399} \X {0, 1439} \X Codes] }

Init == d \in Language \cup Network \cup Service \cup Short \cup Extended \cup Offset
Next == UNCHANGED d

RoundTrip ==
  LET b == EncDesc(d) IN
  IF Len(Body(d)) > 255 THEN b = <<>> /\ d.t = 78
  ELSE /\ IsByteSeq(b)
       /\ b[1] = d.t /\ b[2] = Len(b) - 2
       /\ Suits(d.t, Drop(b, 2)) /\ InDomain(d.t, Drop(b, 2))
       /\ DecLoop(b) = << d >>
\* Inner lengths that do not add up are noticed
Lengths ==
  (d.t \in {72, 77, 78} /\ Len(Body(d)) <= 250) =>
    /\ ~ Suits(d.t, Body(d) \o << 65 >>)
    /\ LET b == Body(d) IN b[Len(b)] /= 0 => ~ Suits(d.t, Take(b, Len(b) - 1))
=============================================================================
