-------------------------------- MODULE Drain -------------------------------
(***************************************************************************)
(* A byte stream made of the packets of a source.                          *)
(*                                                                         *)
(*   src   what the source gives: << "pkt", bytes >>, << "eof", <<>> >>,   *)
(*         << e, <<>> >> for an error e; after that "eof" for ever         *)
(*   k, off  items finished, bytes of item k+1 already delivered           *)
(*                                                                         *)
(* A read of n bytes gives any number of the next bytes between 1 and n    *)
(* (a stream reader may return less than asked for), an error, or the end. *)
(***************************************************************************)
EXTENDS Bits

\* Bytes available before the next error or end
RECURSIVE Avail(_, _, _)
Avail(src, k, off) ==
  IF k >= Len(src) THEN <<>>
  ELSE IF src[k + 1][1] /= "pkt" THEN <<>>
  ELSE Drop(src[k + 1][2], off) \o Avail(src, k + 1, 0)

\* State after n more bytes
RECURSIVE Advance(_, _, _, _)
Advance(src, k, off, n) ==
  IF n = 0 THEN << k, off >>
  ELSE LET rest == Len(src[k + 1][2]) - off
       IN  IF n < rest THEN << k, off + n >> ELSE Advance(src, k + 1, 0, n - rest)

\* Judgement of a read of n bytes with the given outcome (kind "ok" and
\* bytes b, or an error); next state
DrainRead(src, k, off, n, kind, b) ==
  LET av == Avail(src, k, off)
      same == << k, off >>
  IN  IF n = 0
      THEN [ok |-> kind = "ok" /\ b = <<>>, st |-> same]
      ELSE IF av /= <<>>
      THEN LET good == kind = "ok" /\ Len(b) \in 1 .. Min2(n, Len(av)) /\ b = Take(av, Len(b))
           IN  [ok |-> good, st |-> IF good THEN Advance(src, k, off, Len(b)) ELSE same]
      ELSE IF k >= Len(src) THEN [ok |-> kind = "ok" /\ b = <<>>, st |-> same]
      ELSE IF src[k + 1][1] = "eof" THEN [ok |-> kind = "ok" /\ b = <<>>, st |-> << k + 1, 0 >>]
      ELSE [ok |-> kind = src[k + 1][1], st |-> << k + 1, 0 >>]
=============================================================================
