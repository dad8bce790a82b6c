------------------------------- MODULE MC_C25 -------------------------------
(***************************************************************************)
(* An adapter with room for one packet: it hands a packet to the caller    *)
(* directly if the buffer takes it, otherwise keeps it and gives it out in *)
(* pieces. All sources of up to MaxItems items, all sequences of buffer    *)
(* sizes; every read is allowed by Drain!DrainRead, the bytes given out    *)
(* are the bytes of the packets in order, and a program that goes on       *)
(* reading gets all of them, whatever empty buffers, errors and ends of    *)
(* the source there are on the way.                                        *)
(***************************************************************************)
EXTENDS Drain
CONSTANTS PSize, MaxItems, Bufs
VARIABLES src, i, hold, spec, ok, out
vars == << src, i, hold, spec, ok, out >>
Pk(j) == << "pkt", [x \in 1 .. PSize |-> 10 * j + x] >>
Sources == UNION { { s \in [1 .. m -> {"pkt", "err", "eof"}] : TRUE } : m \in 0 .. MaxItems }
Mk(s) == [j \in 1 .. Len(s) |-> IF s[j] = "pkt" THEN Pk(j) ELSE << s[j], <<>> >>]
Init == /\ \E s \in Sources : src = Mk(s)
        /\ i = 0 /\ hold = <<>> /\ spec = << 0, 0 >> /\ ok = TRUE /\ out = <<>>
Item == IF i < Len(src) THEN src[i + 1] ELSE << "eof", <<>> >>
Read(b) ==
  LET r == IF b = 0 THEN [kind |-> "ok", b |-> <<>>, i |-> i, hold |-> hold]
           ELSE IF hold /= <<>> THEN [kind |-> "ok", b |-> Take(hold, Min2(b, Len(hold))), i |-> i, hold |-> Drop(hold, Min2(b, Len(hold)))]
           ELSE IF Item[1] = "err" THEN [kind |-> "err", b |-> <<>>, i |-> i + 1, hold |-> <<>>]
           ELSE IF Item[1] = "eof" THEN [kind |-> "ok", b |-> <<>>, i |-> Min2(i + 1, Len(src)), hold |-> <<>>]
           ELSE IF b >= PSize THEN [kind |-> "ok", b |-> Item[2], i |-> i + 1, hold |-> <<>>]
           ELSE [kind |-> "ok", b |-> Take(Item[2], b), i |-> i + 1, hold |-> Drop(Item[2], b)]
      j == DrainRead(src, spec[1], spec[2], b, r.kind, r.b)
  IN  /\ i' = r.i /\ hold' = r.hold /\ spec' = j.st /\ ok' = j.ok /\ out' = out \o r.b
Reading(set) == src' = src /\ \E b \in set : Read(b)
Next == Reading(Bufs)
Spec == Init /\ [][Next]_vars /\ WF_vars(Reading(Bufs \ {0}))
Allowed == ok
AllBytes == Concat([j \in 1 .. Len(src) |-> src[j][2]])
Prefix == Len(out) <= Len(AllBytes) /\ out = Take(AllBytes, Len(out))
\* the source is used up only if all its bytes were given out
Complete == (i = Len(src) /\ hold = <<>>) => out = AllBytes
Delivers == <>[](out = AllBytes)
\* what was given out is never taken back or changed
Grows == [][Len(out') >= Len(out) /\ Take(out', Len(out)) = out]_vars
=============================================================================
