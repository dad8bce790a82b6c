------------------------------ MODULE Receiver ------------------------------
(***************************************************************************)
(* The section receiver of ISO 13818-1 2.4.4 for the packets of one PID.   *)
(*                                                                         *)
(* State:                                                                  *)
(*   buf    bytes of the section in progress (from its first byte on),     *)
(*          << >> if none                                                  *)
(*   cc     continuity counter of the last packet that was used            *)
(*   last   the section most recently completed, << >> if none             *)
(*   loose  more than one section was completed in a packet since the last *)
(*          section start announced by a pointer: outside the domain of    *)
(*          one-section-at-a-time accumulators, so that observations are   *)
(*          restricted only by the checksum until the next pointer         *)
(*   odd    bytes that begin with FF, but need not be stuffing, were left  *)
(*          out in the packet of the last pointer: maybe a section whose   *)
(*          table id was damaged                                           *)
(*                                                                         *)
(* A packet is the record made by TsPacket!Unpack.                         *)
(***************************************************************************)
EXTENDS Section

CONSTANT CcMod      \* 16; smaller in models

RxInit == [buf |-> <<>>, cc |-> 0, last |-> <<>>, loose |-> FALSE, odd |-> FALSE]

\* The sections completed in bytes b and the bytes left over; a leftover
\* beginning with FF is stuffing (odd: if it is).
RECURSIVE Cut(_)
Cut(b) ==
  IF b = <<>> THEN [done |-> <<>>, rest |-> <<>>, odd |-> FALSE]
  ELSE IF b[1] = 255 THEN [done |-> <<>>, rest |-> <<>>, odd |-> Len(b) < 3 \/ \E k \in 1 .. Len(b) : b[k] /= 255]
  ELSE IF IsWhole(b)
       THEN LET c == Cut(Drop(b, SecLen(b)))
            IN  [done |-> << Take(b, SecLen(b)) >> \o c.done, rest |-> c.rest, odd |-> c.odd]
       ELSE [done |-> <<>>, rest |-> b, odd |-> FALSE]

(* Outcome of a packet:                                                    *)
(*   rx     next state                                                     *)
(*   done   sections completed by the packet                               *)
(*   stale  no section is in progress or completed: an accumulator may go  *)
(*          on showing the section it showed before                        *)
(*   same   nothing may change                                             *)
RxDrop(rx) == [rx   |-> [rx EXCEPT !.buf = <<>>], done |-> <<>>, stale |-> TRUE, same |-> FALSE]

Follows(rx, p) == p.cc = (rx.cc + 1) % CcMod

RxPusi(rx, p) ==
  LET ptr   == p.pay[1]
      head  == Mid(p.pay, 2, ptr)
      tail  == Drop(p.pay, 1 + ptr)
      \* the section in progress must end exactly at the pointer
      whole == rx.buf \o head
      ends  == ptr > 0 /\ rx.buf /= <<>> /\ Follows(rx, p)
               /\ IsWhole(whole) /\ SecLen(whole) = Len(whole)
      c     == Cut(tail)
      done  == (IF ends THEN << whole >> ELSE <<>>) \o c.done
  IN  [ rx    |-> [ buf   |-> c.rest,
                    cc    |-> p.cc,
                    last  |-> IF done = <<>> THEN rx.last ELSE done[Len(done)],
                    loose |-> Len(done) > 1,
                    odd   |-> c.odd ],
        done  |-> done,
        \* the pointer leads to stuffing: nothing in progress
        stale |-> c.rest = <<>>,
        same  |-> FALSE ]

RxCont(rx, p) ==
  IF rx.buf = <<>> THEN [RxDrop(rx) EXCEPT !.rx.cc = p.cc]
  ELSE IF ~ Follows(rx, p) THEN RxDrop(rx)
  ELSE LET b == rx.buf \o p.pay
       IN  IF IsWhole(b)
           THEN \* what follows the section is stuffing: no section starts in
                \* a packet without unit start
                [ rx    |-> [rx EXCEPT !.buf = <<>>, !.cc = p.cc, !.last = Take(b, SecLen(b))],
                  done  |-> << Take(b, SecLen(b)) >>, stale |-> FALSE, same |-> FALSE ]
           ELSE [ rx    |-> [rx EXCEPT !.buf = b, !.cc = p.cc],
                  done  |-> <<>>, stale |-> FALSE, same |-> FALSE ]

RxStep(rx, p) ==
  CASE p.kind = "none" -> [rx |-> rx, done |-> <<>>, stale |-> TRUE, same |-> TRUE]
    [] p.kind = "bad" -> RxDrop(rx)
    [] p.pusi /\ 1 + p.pay[1] >= Len(p.pay) -> RxDrop(rx)
    [] p.pusi -> RxPusi(rx, p)
    [] OTHER  -> RxCont(rx, p)
=============================================================================
