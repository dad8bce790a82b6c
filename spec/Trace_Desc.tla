----------------------------- MODULE Trace_Desc -----------------------------
(***************************************************************************)
(* Recorded descriptors (C15, C16, C17).                                   *)
(*   enc   a list d written (behind pre, which was there): out, with       *)
(*         announced size, returned size, list read back, list cloned and  *)
(*         written                                                         *)
(*   dec   bytes b read: d; written again: out; cloned: twin, clone; each  *)
(*         one written alone: one                                          *)
(*   tab   a table tb written, its packets out                             *)
(***************************************************************************)
EXTENDS Trace, Tables, Packetizer

\* Left out for want of room
Over(d) == Len(Body(d)) > 255

\* A raw value with a known tag is read back as that
Reread(d) == IF d.k = 1 THEN d ELSE DecDesc(d.t, d.n)
ReadableRaw(d) == d.k = 1 \/ ~ Suits(d.t, d.n) \/ InDomain(d.t, d.n)

EncVerdict(h) ==
  LET w == EncLoop(h.d)
      over == \E i \in 1 .. Len(h.d) : Over(h.d[i])
      kept == SelectSeq(h.d, LAMBDA d : ~ Over(d))
  IN  IF h.out /= h.pre \o w THEN "wrong bytes"
      ELSE IF h.ret /= Len(w) THEN "returned size is not the size written"
      ELSE IF ~ over /\ h.size /= Len(w) THEN "announced size is not the size written"
      ELSE IF h.each /= Len(h.d) THEN "number of descriptors"
      ELSE IF h.clone /= w THEN "the clone is written differently"
      ELSE IF Len(h.back) /= Len(kept) THEN "number of descriptors read back"
      ELSE IF \E i \in 1 .. Len(kept) : ReadableRaw(kept[i]) /\ h.back[i] /= Reread(kept[i])
           THEN "read back differently"
      ELSE "ok"

Whole(x) == << x[1], Len(x) - 1 >> \o Tail(x)
\* An item that is written as it was read: raw, or typed with all bits given
ByteExact(x) == ~ Suits(x[1], Tail(x))
DecVerdict(h) ==
  LET x == LoopItems(h.b)
      exact == \A i \in 1 .. Len(x) : ByteExact(x[i])
  IN  IF Len(h.d) /= Len(x) THEN "number of descriptors"
      ELSE IF h.len /= Len(x) \/ h.empty /= (Len(x) = 0) THEN "announced number of descriptors"
      ELSE IF \E i \in 1 .. Len(x) : ~ IsReading(h.d[i], x[i]) THEN "read wrongly"
      ELSE IF h.twin /= h.d THEN "the clone differs"
      ELSE IF \E i \in 1 .. Len(x) : ByteExact(x[i]) /\ h.one[i] /= Whole(x[i]) THEN "raw descriptor written differently"
      ELSE IF \E i \in 1 .. Len(x) :
                ~ ByteExact(x[i]) /\ InDomain(x[i][1], Tail(x[i])) /\ h.one[i] /= EncDesc(DecDesc(x[i][1], Tail(x[i])))
           THEN "written wrongly"
      ELSE IF ~ LoopInDomain(h.b) THEN "ok"
      ELSE IF h.wr /= "ok" THEN "panic in writing"
      ELSE IF h.clone /= h.out THEN "the clone is written differently"
      ELSE IF exact /\ h.out /= Concat([i \in 1 .. Len(x) |-> Whole(x[i])]) THEN "loop written differently"
      ELSE IF h.out /= Concat(h.one) THEN "list is not written as its elements are"
      ELSE IF h.ret /= Len(h.out) THEN "returned size is not the size written"
      ELSE IF h.size /= Len(h.out) THEN "announced size is not the size written"
      ELSE "ok"

\* Inside a table
TabVerdict(h) ==
  LET secs == SectionsIn(h.out) IN
  IF CASE h.kind = "eit" -> IsPresentFollowing(h.tb, secs)
       [] h.kind = "tot" -> IsOne("tot", h.tb, secs)
       [] OTHER -> IsCoding(h.kind, h.tb, secs)
  THEN "ok" ELSE "written differently in a table"

TSteps(h) == 1
TStart(h) == 0
TApply(h, i, a) ==
  Judge(IF h.st /= "ok" THEN "panic"
        ELSE CASE h.k = "enc" -> EncVerdict(h)
               [] h.k = "tab" -> TabVerdict(h)
               [] h.k = "dec" -> DecVerdict(h))
=============================================================================
