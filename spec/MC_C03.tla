------------------------------- MODULE MC_C03 -------------------------------
(***************************************************************************)
(* The decoders of the specification are total: any byte string read as a  *)
(* descriptor loop, a text, the entries or the contents of a section, or   *)
(* the payload of packets has a meaning, and nothing read lies outside it. *)
(***************************************************************************)
EXTENDS Tables, Receiver

CONSTANTS Alphabet, MaxLen, MaxPay

VARIABLES b, rx
vars == << b, rx >>

Init == b = <<>> /\ rx = RxInit
Grow == \E x \in Alphabet : b' = Append(b, x) /\ rx' = rx
\* the bytes so far as the payload of a packet
Send == /\ b /= <<>> /\ Len(b) + Len(rx.buf) < MaxPay
        /\ \E p \in BOOLEAN, c \in 0 .. 1 :
             rx' = RxStep(rx, [kind |-> "pay", pusi |-> p, cc |-> c, pay |-> b]).rx
        /\ b' = <<>>
Next == Send \/ (Len(b) < (IF rx = RxInit THEN MaxLen ELSE MaxPay - Len(rx.buf)) /\ Grow)

Sequence(x) == DOMAIN x = 1 .. Len(x)
LoopTotal == rx = RxInit =>
  LET d == DecLoop(b) IN
  /\ Sequence(d)
  /\ Len(Concat(LoopItems(b))) + Len(d) <= Len(b)
  /\ \A i \in 1 .. Len(d) : d[i].k \in {0, 1} /\ Sequence(d[i].n) /\ Sequence(d[i].s)
TextTotal ==
  rx = RxInit /\ TextOk(b) => LET u == UnText(b) IN Sequence(Printed(u)) /\ Len(Data(u)) <= Len(b)
EntriesTotal == rx = RxInit =>
  \A k \in {"pat", "pmt", "sdt", "nit", "eit"} :
    LET e == Entries(k, b) IN Len(Concat(e)) <= Len(b) /\ \A i \in 1 .. Len(e) : Len(e[i]) >= ItemHead(k)
Fixed(k) == Rep(0, MinSize(k) - (IF k = "tdt" THEN 3 ELSE 7))
SectionTotal == rx = RxInit =>
  \A k \in Kinds :
    LET id == CHOOSE i \in OwnIds(k) : TRUE
        \* the bytes at the end of the fixed part, or after it
        x == << id, 176, 0 >> \o Take(Fixed(k), Max2(0, Len(Fixed(k)) - Len(b))) \o b
        y == << id, 176, 0 >> \o Fixed(k) \o b
        total(q) == LET z == IF k = "tdt" THEN q ELSE Seal(q) IN
                    Len(z) >= MinSize(k) => /\ WellFormed(k, z) \in BOOLEAN
                                            /\ WellFormed(k, z) => Sequence(DecSection(k, z).items)
    IN  total(x) /\ total(y)
Bounded == rx.buf /= <<>> => rx.buf[1] /= 255 /\ ~ IsWhole(rx.buf)
=============================================================================
