------------------------------- MODULE MC_C24 -------------------------------
(***************************************************************************)
(* A reader that takes its input in arbitrary pieces: bytes of the input   *)
(* arrive in chunks, interruptions and faults happen anywhere. Whenever it *)
(* returns to its caller, the result is that of Reader!ReadOne, for every  *)
(* input, chunking and fault position.                                     *)
(***************************************************************************)
EXTENDS Reader
CONSTANTS MaxLen, MaxFaults, MaxIntr, MaxReturns
VARIABLES d, faults, at,     \* input, position reached by the source
          nf, intr,
          part,              \* bytes of the packet in progress
          base, bnf,         \* state of the specification at the last return
          ret, n
vars == << d, faults, at, nf, intr, part, base, bnf, ret, n >>
Inputs == UNION { [1 .. k -> {SyncB, 0}] : k \in 0 .. MaxLen }
FaultSets(k) == UNION { { f \in [1 .. j -> (0 .. k) \X {"err", "eof"}] :
                          \A i \in 1 .. (j - 1) : f[i][1] <= f[i + 1][1] } : j \in 0 .. MaxFaults }
Init == /\ d \in Inputs /\ faults \in FaultSets(Len(d))
        /\ at = 0 /\ nf = 0 /\ intr = 0 /\ part = <<>> /\ base = 0 /\ bnf = 0
        /\ ret = [kind |-> "none", pkt |-> <<>>] /\ n = 0
FaultHere == nf < Len(faults) /\ faults[nf + 1][1] = at
\* how far the source can deliver now
Limit == IF nf < Len(faults) THEN faults[nf + 1][1] ELSE Len(d)
Return(kind, pkt) == /\ ret' = [kind |-> kind, pkt |-> pkt] /\ part' = <<>> /\ n' = n + 1
\* the reader asks for one byte while it looks for a sync byte, then for the rest
Want == IF part = <<>> THEN 1 ELSE Size - Len(part)
Chunk == /\ n < MaxReturns /\ ~ FaultHere /\ at < Len(d)
         /\ \E k \in 1 .. Min2(Want, Limit - at) :
              LET got == SubSeq(d, at + 1, at + k)
                  all == IF part = <<>> /\ got[1] /= SyncB THEN <<>> ELSE part \o got
              IN  /\ at' = at + k
                  /\ IF Len(all) = Size THEN Return("pkt", all) /\ base' = base /\ bnf' = bnf
                     ELSE part' = all /\ UNCHANGED << ret, n, base, bnf >>
         /\ UNCHANGED << d, faults, nf, intr >>
Fault == /\ n < MaxReturns /\ FaultHere /\ nf' = nf + 1 /\ Return(faults[nf + 1][2], <<>>)
         /\ UNCHANGED << d, faults, at, intr, base, bnf >>
Interrupt == intr < MaxIntr /\ n < MaxReturns /\ intr' = intr + 1
             /\ UNCHANGED << d, faults, at, nf, part, base, bnf, ret, n >>
End == /\ n < MaxReturns /\ ~ FaultHere /\ at = Len(d) /\ Return("eof", <<>>)
       /\ UNCHANGED << d, faults, at, nf, intr, base, bnf >>
\* the caller takes the result and calls again
Take1 == /\ ret.kind /= "none"
         /\ LET r == ReadOne(d, faults, base, bnf) IN base' = r.pos /\ bnf' = r.nf
         /\ ret' = [kind |-> "none", pkt |-> <<>>]
         /\ UNCHANGED << d, faults, at, nf, intr, part, n >>
Next == IF ret.kind /= "none" THEN Take1 ELSE Chunk \/ Fault \/ Interrupt \/ End
Refines == ret.kind /= "none" =>
             LET r == ReadOne(d, faults, base, bnf)
             IN  ret = [kind |-> r.kind, pkt |-> r.pkt] /\ at = r.pos /\ nf = r.nf
\* The reader never keeps its caller waiting for ever: interruptions being
\* finite, every call returns
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Returns == [](ret.kind = "none" /\ n < MaxReturns => <>(ret.kind /= "none"))
Delivers == <>(n = MaxReturns)
=============================================================================
