------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* What a packet reader delivers from an input: a function of the input    *)
(* bytes and the positions of its faults only.                             *)
(*                                                                         *)
(*   d       bytes of the input                                            *)
(*   faults  << position, kind >>, in order: before byte position+1 is     *)
(*           delivered the input once reports an error, or "eof" (an end   *)
(*           of input that is not final). Interruptions are no faults.     *)
(*   pos     bytes already used     nf  faults already reported            *)
(***************************************************************************)
EXTENDS Bits

CONSTANTS Size, SyncB     \* packet size and sync byte

\* Positions >= pos at which d has a sync byte; the first of them (or Len(d))
FirstSync(d, pos) ==
  IF pos < Len(d) /\ d[pos + 1] = SyncB THEN pos ELSE
  LET r == { i \in pos + 1 .. Len(d) : d[i] = SyncB }
  IN  IF r = {} THEN Len(d) ELSE (CHOOSE i \in r : \A j \in r : i <= j) - 1

\* Position of the next fault, or beyond the input
NextFault(d, faults, nf) == IF nf < Len(faults) THEN faults[nf + 1][1] ELSE Len(d) + Size

\* Result of one read: kind "pkt", "eof" or the error, the packet, next state
ReadOne(d, faults, pos, nf) ==
  LET f == NextFault(d, faults, nf)
      s == FirstSync(d, pos)
      e == s + Size
  IN  IF e <= f /\ e <= Len(d) /\ s < Len(d)
      THEN [kind |-> "pkt", pkt |-> Mid(d, s + 1, Size), pos |-> e, nf |-> nf]
      ELSE IF f <= Len(d)
      THEN [kind |-> faults[nf + 1][2], pkt |-> <<>>, pos |-> f, nf |-> nf + 1]
      ELSE [kind |-> "eof", pkt |-> <<>>, pos |-> Len(d), nf |-> nf]
=============================================================================
