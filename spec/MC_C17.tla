------------------------------- MODULE MC_C17 -------------------------------
(***************************************************************************)
(* Reading loops: all byte strings over an alphabet of tags and lengths,   *)
(* byte by byte. One entry per complete item, nothing for the tail,        *)
(* entries in place, unsuitable ones kept as they are.                     *)
(***************************************************************************)
EXTENDS Descriptors

CONSTANTS Alphabet, MaxLen
VARIABLE b
vars == << b >>
Init == b = <<>>
Next == Len(b) < MaxLen /\ \E x \in Alphabet : b' = Append(b, x)

Whole(x) == << x[1], Len(x) - 1 >> \o Tail(x)
Back == Concat([i \in 1 .. Len(LoopItems(b)) |-> Whole(LoopItems(b)[i])])
\* the items are the bytes up to a tail that is no item
Partition ==
  /\ Len(Back) <= Len(b)
  /\ Back = Take(b, Len(Back))
  /\ LET r == Drop(b, Len(Back)) IN Len(r) < 2 \/ r[2] > Len(r) - 2
\* reading and writing leaves raw items as they are; typed ones keep their value
\* (a selector without text behind it is not written again)
Through ==
  \A i \in 1 .. Len(LoopItems(b)) :
    LET x == LoopItems(b)[i]  v == DecLoop(b)[i] IN
    /\ v.t = x[1]
    /\ v.k = 0 => EncDesc(v) = Whole(x) /\ v.n = Tail(x)
    /\ (v.k = 1 /\ InDomain(x[1], Tail(x)) /\ \A j \in 1 .. Len(v.s) : TextRoundTrips(v.s[j])) => DecLoop(EncDesc(v)) = << v >> /\ Len(EncDesc(v)) = Len(Whole(x))
\* a longer string only adds entries
Monotone == [][ LET n == Len(DecLoop(b)) IN Len(DecLoop(b')) >= n /\ Take(DecLoop(b'), n) = DecLoop(b) ]_vars
=============================================================================
