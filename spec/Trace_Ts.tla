------------------------------ MODULE Trace_Ts ------------------------------
(***************************************************************************)
(* Recorded header calls (C21).                                            *)
(*   get   q: headers (5 bytes each), r: what was read from each:          *)
(*         [sync, err, pusi, pid, scrambled, af, payload, cc, af size,     *)
(*          payload offset]                                                *)
(*   set   p: packet, ops: [op, argument] with op 1 PID, 2 cc, 3 payload   *)
(*         0/1, 4 unit start 0/1; out: bytes changed by each [index,value],*)
(*         fin: whole packet at the end                                    *)
(***************************************************************************)
EXTENDS Trace, TsPacket

Read(p) == << IF Sync(p) THEN 1 ELSE 0, TErr(p), Pusi(p), Pid(p), IF Scrambling(p) /= 0 THEN 1 ELSE 0,
              HasAf(p), HasPay(p), Cc(p), AfLen(p), PayOffset(p) >>

VGet(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF Len(h.q) /= Len(h.r) THEN "record"
  ELSE IF \A i \in 1 .. Len(h.q) : h.r[i] = Read(h.q[i]) THEN "ok" ELSE "wrong field"

Op(p, o) ==
  CASE o[1] = 1 -> SetPid(p, o[2])
    [] o[1] = 2 -> SetCc(p, o[2])
    [] o[1] = 3 -> SetPay(p, o[2])
    [] o[1] = 4 -> SetPusi(p, o[2])

RECURSIVE Patch(_, _)
Patch(p, d) == IF d = <<>> THEN p ELSE Patch([p EXCEPT ![d[1][1]] = d[1][2]], Tail(d))

TSteps(h) == IF h.k = "get" THEN 1 ELSE Len(h.ops)
TStart(h) == IF h.k = "get" THEN <<>> ELSE h.p
TApply(h, i, p) ==
  IF h.k = "get" THEN [s |-> p, v |-> VGet(h)]
  ELSE LET want == Op(p, h.ops[i])
       IN  [ s |-> want,
             v |-> IF h.st /= "ok" THEN "panic"
                   ELSE IF Patch(p, h.out[i]) /= want THEN "wrong packet"
                   ELSE IF i = Len(h.ops) /\ h.fin /= want THEN "wrong packet"
                   ELSE "ok" ]
=============================================================================
