------------------------------- MODULE MC_C15 -------------------------------
(***************************************************************************)
(* Descriptors on the specification alone: for every combination of field  *)
(* values at the ends of their ranges, reading what was written gives the  *)
(* value back, the layout suits the tag, and the length byte is right.     *)
(***************************************************************************)
EXTENDS Descriptors

VARIABLE d
vars == << d >>

Ends(m) == {0, m}
Lists(S, m) == UNION { [1 .. k -> S] : k \in 0 .. m }
V(t, n) == [t |-> t, k |-> 1, n |-> n, s |-> <<>>]

Ca == { V(9, << a, b >> \o c) : a \in {0, 1, 65535}, b \in {0, 1, 8191}, c \in Lists({0, 255}, 2) }
Rate == { V(14, << x >>) : x \in {0, 1, 255, 256, 65535, 65536, 4194303} }
Services == { V(65, Concat(x)) : x \in Lists({ << a, b >> : a \in {0, 256, 65535}, b \in {0, 255} }, 3) }
Satellite == { V(67, << f[1], f[2], o, w, p, r, s2, m, sr, fec >>) :
                 f \in {<< 0, 0 >>, << 0, 10 >>, << 1170, 0 >>, << 99999, 9990 >>}, o \in {0, 6, 59994}, w \in 0 .. 1,
                 p \in Ends(3), r \in Ends(3), s2 \in 0 .. 1, m \in Ends(3), sr \in {0, 27500, 999999}, fec \in Ends(15) }
Cable == { V(68, << f[1], f[2], o, m, sr, fec >>) :
             f \in {<< 0, 0 >>, << 0, 100 >>, << 31200, 0 >>, << 429496, 7200 >>}, o \in Ends(15), m \in {0, 128, 255},
             sr \in {0, 1, 6900, 999999}, fec \in Ends(15) }
Terrestrial == { V(90, << f[1], f[2], a, b, c, e, g, h, i, j, k, m, o >>) :
                   f \in {<< 0, 0 >>, << 47400, 0 >>, << 429456, 9990 >>}, a \in Ends(7), b \in 0 .. 1, c \in 0 .. 1,
                   e \in 0 .. 1, g \in Ends(3), h \in Ends(7), i \in Ends(7), j \in Ends(7), k \in Ends(3), m \in Ends(3),
                   o \in 0 .. 1 }
Stream == { V(82, << x >>) : x \in Byte }
Channels == { V(131, Concat(x)) : x \in Lists({ << a, v, c >> : a \in {0, 65535}, v \in 0 .. 1, c \in {0, 1, 1023} }, 2) }

Init == d \in Ca \cup Rate \cup Services \cup Satellite \cup Cable \cup Terrestrial \cup Stream \cup Channels
Next == UNCHANGED d

RoundTrip ==
  LET b == EncDesc(d) IN
  /\ IsByteSeq(b)
  /\ b[1] = d.t /\ b[2] = Len(b) - 2
  /\ Suits(d.t, Drop(b, 2)) /\ InDomain(d.t, Drop(b, 2))
  /\ DecLoop(b) = << d >>
\* Reserved bits are of no account
Reserved ==
  d.t \in {14, 90} =>
    LET b == EncDesc(d) IN DecLoop([b EXCEPT ![3] = IF d.t = 14 THEN @ % 64 ELSE @, ![Len(b)] = IF d.t = 90 THEN 0 ELSE @]) = << d >>
=============================================================================
