------------------------------- MODULE MC_C13 -------------------------------
(***************************************************************************)
(* A sender splits a table: entries go into the open section as long as    *)
(* they fit, a section may be closed early. The limit is small here, the   *)
(* entries are of all sizes up to one that fills a section.                *)
(***************************************************************************)
EXTENDS Tables

CONSTANTS Limit, MCKinds, MCItems

SmallMax(kind) == Limit

VARIABLES kind, tb, closed, open, pos, phase
vars == << kind, tb, closed, open, pos, phase >>

Fixed(k) == CASE k = "pat" -> 8 [] k = "pmt" -> 12 [] k = "sdt" -> 11 [] k = "nit" -> 12
Room(k) == Limit - 4 - Fixed(k)
Fill(n) == IF n = 0 THEN <<>> ELSE << Raw(200, Rep(n, n - 2)) >>
Sizes(k) == IF k = "pat" THEN {0} ELSE {0, 2, 3} \cup { x \in { Room(k) - ItemHead(k) - d : d \in 0 .. 3 } : x >= 4 } \cup { (Room(k) \div 2) - ItemHead(k) }
Fields(k, i) == CASE k = "pat" -> << i, i >> [] k = "pmt" -> << i, i >> [] k = "sdt" -> << i, 0, 1, 4, 0 >> [] k = "nit" -> << i, i >>
Heads == [pat |-> << 1, 2 >>, pmt |-> << 1, 2, 3 >>, sdt |-> << 66, 1, 2, 3 >>, nit |-> << 64, 1, 2 >>]
WideSizes(k) == IF k \in {"pmt", "nit"} THEN {0, 2, Room(k) - ItemHead(k) - 1, Room(k) - ItemHead(k), Room(k) - 1, Room(k)} ELSE {0}

Init == /\ kind \in MCKinds
        /\ \E w \in WideSizes(kind), n \in 0 .. MCItems : \E z \in [1 .. n -> Sizes(kind)] :
             tb = [hd |-> Heads[kind], ds |-> Fill(w), items |-> [i \in 1 .. n |-> [n |-> Fields(kind, i), d |-> Fill(z[i])]]]
        /\ closed = <<>> /\ open = <<>> /\ pos = 1 /\ phase = "split"

WideLen == IF closed = <<>> THEN Len(EncLoop(tb.ds)) ELSE 0
Used == Fixed(kind) + WideLen + Len(Concat([i \in 1 .. Len(open) |-> EncItem(kind, open[i])])) + 4
Put == /\ phase = "split" /\ pos <= Len(tb.items)
       /\ Used + Len(EncItem(kind, tb.items[pos])) <= Limit
       /\ open' = Append(open, tb.items[pos]) /\ pos' = pos + 1
       /\ UNCHANGED << kind, tb, closed, phase >>
Close == /\ phase = "split" /\ pos <= Len(tb.items)
         /\ open /= <<>> \/ (closed = <<>> /\ tb.ds /= <<>>)
         /\ closed' = Append(closed, open) /\ open' = <<>>
         /\ UNCHANGED << kind, tb, pos, phase >>
Finish == /\ phase = "split" /\ pos > Len(tb.items)
          /\ closed' = Append(closed, open) /\ open' = <<>> /\ phase' = "done"
          /\ UNCHANGED << kind, tb, pos >>
Next == Put \/ Close \/ Finish

Secs == LET m == Len(closed) IN
  [i \in 1 .. m |-> EncSection(kind, tb.hd, IF i = 1 THEN tb.ds ELSE <<>>, closed[i], i - 1, m - 1, <<>>)]

RECURSIVE Read(_, _)
Read(s, i) == IF i = 0 THEN NoTable(kind) ELSE Accumulate(kind, Read(s, i - 1), s[i], Len(s[i]))

NeverStuck == phase = "done" \/ ENABLED Next
Nothing == phase = "done" => /\ IsCoding(kind, tb, Secs)
                             /\ Read(Secs, Len(Secs)) = tb
                             /\ \A i \in 1 .. Len(Secs) : Len(Secs[i]) <= Limit
\* Losing, repeating or exchanging sections is noticed
Strict == phase = "done" /\ Len(Secs) > 1 =>
            /\ ~ IsCoding(kind, tb, Drop(Secs, 1))
            /\ ~ IsCoding(kind, tb, Secs \o << Secs[Len(Secs)] >>)
            /\ ~ IsCoding(kind, tb, << Secs[2], Secs[1] >> \o Drop(Secs, 2))
=============================================================================
