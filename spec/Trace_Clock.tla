---------------------------- MODULE Trace_Clock -----------------------------
(***************************************************************************)
(* Recorded clock calls (C22). Numbers are BigNat digit sequences.         *)
(*   set   pre, post: packet before and after set_pcr(v); get: get_pcr     *)
(*   get   f: packet bytes 0..11, r: get_pcr, is: is_pcr                   *)
(*   delta a, b, r        jit a = pcr, b = stc, neg, r                     *)
(*   stc   last, bytes, delta, lbytes, r; q, n: ticks and wraps passed     *)
(*   us, ms: a, r        rate  delta, bytes, r; ms: whole milliseconds     *)
(***************************************************************************)
EXTENDS Trace, Clock, TsPacket

PcrField(p) == Mid(p, 7, 6)
IsPcr(p) == HasAf(p) = 1 /\ AfLen(p) >= 7 /\ Bit(p[6], 4) = 1

VSet(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF Len(h.post) /= Len(h.pre) THEN "packet size"
  ELSE IF \E i \in 1 .. Len(h.pre) : i \notin 7 .. 12 /\ h.pre[i] /= h.post[i] THEN "other bytes changed"
  ELSE IF ~ IsPcrCode(PcrField(h.post), h.v) THEN "wrong coding"
  ELSE IF h.get /= h.v THEN "read back differently"
  ELSE "ok"

VGet(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF h.r /= PcrOf(PcrField(h.f)) THEN "wrong value"
  ELSE IF h.is /= IsPcr(h.f) THEN "is_pcr"
  ELSE "ok"

VDelta(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF IsTicks(h.r, h.a, h.b, PcrPeriod) THEN "ok"
  ELSE IF BLt(h.b, h.a) /\ IsTicks(BAdd(h.r, BNat(1)), h.a, h.b, PcrPeriod) THEN "known:pcr-delta-wrap"
  ELSE "wrong difference"

Second == BNat(27000000)
Ticks(a, b) == IF BLe(a, b) THEN BSub(b, a) ELSE BSub(BAdd(b, PcrPeriod), a)

\* |r * 27 - d * 1000| < 27
Near(r, d) == LET x == BMul(r, BNat(27))  y == BMul(d, BNat(1000))
              IN  IF BLe(x, y) THEN BLt(BSub(y, x), BNat(27)) ELSE BLt(BSub(x, y), BNat(27))
VJit(h) ==
  LET fwd == Ticks(h.b, h.a)
      back == Ticks(h.a, h.b)
  IN  IF h.st /= "ok" THEN "panic"
      ELSE IF BLe(fwd, Second) THEN (IF ~ h.neg /\ Near(h.r, fwd) THEN "ok" ELSE "wrong jitter")
      ELSE IF BLe(back, Second) THEN (IF (h.neg \/ h.r = <<>>) /\ Near(h.r, back) THEN "ok" ELSE "wrong jitter")
      ELSE "ok"

VStc(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF ~ BLt(h.r, PcrPeriod) THEN "no reading of the clock"
  ELSE IF ~ IsStc(h.r, h.last, h.bytes, h.delta, h.lbytes, h.q, h.n, PcrPeriod) THEN "wrong clock"
  ELSE "ok"

VQuot(h, n) == IF h.st /= "ok" THEN "panic" ELSE IF BIsQuot(h.r, h.a, BNat(n)) THEN "ok" ELSE "wrong quotient"

\* ms: the milliseconds recorded with it
VRate(h) ==
  IF h.st /= "ok" THEN "panic"
  ELSE IF ~ BIsQuot(h.ms, h.delta, BNat(27000)) THEN "wrong milliseconds"
  ELSE IF h.ms = <<>> THEN (IF h.r = <<>> THEN "ok" ELSE "wrong bitrate")
  ELSE IF ~ BIsQuot(h.r, BMul(h.bytes, BNat(8)), h.ms) THEN "wrong bitrate"
  ELSE "ok"

TSteps(h) == 1
TStart(h) == 0
TApply(h, i, a) ==
  Judge(CASE h.k = "set" -> VSet(h)
          [] h.k = "get" -> VGet(h)
          [] h.k = "delta" -> VDelta(h)
          [] h.k = "jit" -> VJit(h)
          [] h.k = "stc" -> VStc(h)
          [] h.k = "us" -> VQuot(h, 27)
          [] h.k = "ms" -> VQuot(h, 27000)
          [] h.k = "rate" -> VRate(h)
          [] OTHER -> "unknown record")
=============================================================================
