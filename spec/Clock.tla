------------------------------- MODULE Clock --------------------------------
(***************************************************************************)
(* The 27 MHz program clock (ISO 13818-1 2.4.2.1) and its field in the     *)
(* adaptation field (2.4.3.5). A reading is a BigNat 0 .. Period-1.        *)
(***************************************************************************)
EXTENDS BigNat

PcrPeriod == BMul(BPow2(33), BNat(300))
PtsPeriod == BPow2(33)

\* r is the number of ticks from reading a to reading b
IsTicks(r, a, b, period) ==
  /\ BLt(r, period)
  /\ LET s == BAdd(a, r) IN s = b \/ s = BAdd(b, period)

\* r is the reading extrapolated from the reading last: `delta` ticks passed
\* with the last `lbytes` bytes, `bytes` have come since. q: ticks since then,
\* n: wraps since then
IsStc(r, last, bytes, delta, lbytes, q, n, period) ==
  /\ BIsQuot(q, BMul(delta, bytes), lbytes)
  /\ BLt(r, period)
  /\ BAdd(r, BMul(n, period)) = BAdd(last, q)

\* Base (33 bits) and extension (9 bits) in the six bytes f
PcrBase(f) == BAdd(BMul(BNat(U16(f, 1)), BPow2(17)),
                   BNat(512 * f[3] + 2 * f[4] + Bit(f[5], 7)))
PcrExt(f)  == 256 * Bit(f[5], 0) + f[6]
PcrOf(f)   == BAdd(BMul(PcrBase(f), BNat(300)), BNat(PcrExt(f)))

\* f is the coding of v: extension below 300, reserved bits all ones
IsPcrCode(f, v) == PcrExt(f) < 300 /\ PcrOf(f) = v /\ Field(f[5], 1, 6) = 63
=============================================================================
