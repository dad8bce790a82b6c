------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Big-endian numbers in byte arrays, and bit fields packed into one       *)
(* number. Numbers are << high 16 bits, low 16 bits >>.                    *)
(***************************************************************************)
EXTENDS Bits

\* Number of w bytes (2, 3, 4) at offset o of array a
Get(a, o, w) ==
  CASE w = 2 -> << 0, U16(a, o + 1) >>
    [] w = 3 -> << a[o + 1], U16(a, o + 2) >>
    [] w = 4 -> W32(a, o + 1)

\* ... as bytes
Coded(x, w) == Drop(B16(x[1]) \o B16(x[2]), 4 - w)

Put(a, o, w, x) == Take(a, o) \o Coded(x, w) \o Drop(a, o + w)

\* Values vs of ws bits each, from bit `top` downwards
RECURSIVE Packed(_, _, _)
Packed(top, vs, ws) ==
  IF vs = <<>> THEN 0 ELSE vs[1] * Pow2[top - ws[1]] + Packed(top - ws[1], Tail(vs), Tail(ws))
=============================================================================
