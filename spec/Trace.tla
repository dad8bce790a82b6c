------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded histories.                                       *)
(*                                                                         *)
(* The harness writes one JSON object per history. A history is a start    *)
(* state of the specification (Start), a number of recorded calls (Steps)  *)
(* and for each call the state transition of the specification together    *)
(* with the verdict on the recorded result (Apply). The modules Trace_*    *)
(* define these three operators as TSteps, TStart, TApply; Trace.cfg       *)
(* connects them.                                                          *)
(*                                                                         *)
(* Behaviours: the root state fans out into chunks, a chunk into its       *)
(* histories, and each history runs its steps. So every recorded call is   *)
(* one transition, and TLC's workers share the histories.                  *)
(***************************************************************************)
EXTENDS Bits, Json, IOUtils

CONSTANTS Steps(_), Start(_), Apply(_, _, _)

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
N == Len(Hist)
K == Min2(N, 96)

\* Deviations listed in known-findings.txt under the property being checked
Known == { x \in {"known:pcr-delta-wrap", "known:eit-first-segment"} : x = IOEnv.VERIF_KNOWN }

VARIABLES t, l, s, v
vars == << t, l, s, v >>

Init == t = 0 /\ l = 0 /\ s = 0 /\ v = "ok"

\* A panic, abort or hang that ended the recording
IsFault(h) == h.k = "fault"

Chunk == /\ t = 0
         /\ \E c \in 1 .. K : t' = 0 - c
         /\ UNCHANGED << l, s, v >>

Begin == /\ t < 0
         /\ \E j \in 0 .. ((N + t) \div K) : t' = j * K - t
         /\ l' = 0
         /\ v' = IF IsFault(Hist[t']) THEN "fault" ELSE "ok"
         /\ s' = IF IsFault(Hist[t']) THEN 0 ELSE Start(Hist[t'])

Step == /\ t > 0
        /\ v = "ok" \/ v \in Known
        /\ ~ IsFault(Hist[t])
        /\ l < Steps(Hist[t])
        /\ t' = t
        /\ l' = l + 1
        /\ LET a == Apply(Hist[t], l + 1, s) IN s' = a.s /\ v' = a.v
        /\ IF v' \in Known THEN PrintT(<< "KNOWN", v' >>) ELSE TRUE

Next == Chunk \/ Begin \/ Step
Spec == Init /\ [][Next]_vars

\* The recorded result is one the specification allows.
Conforms == v = "ok" \/ v \in Known

-----------------------------------------------------------------------------
(* For histories of one call without state *)
Judge(verdict) == [s |-> 0, v |-> verdict]

(* First failing clause of a list of << condition, name >>; the list is     *)
(* evaluated from the left so that later conditions may rely on earlier.   *)
=============================================================================
