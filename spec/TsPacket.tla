------------------------------ MODULE TsPacket ------------------------------
(***************************************************************************)
(* The transport packet of ISO 13818-1 2.4.3: 188 bytes, 4 of them header. *)
(* Byte k of the standard is p[k + 1].                                     *)
(***************************************************************************)
EXTENDS Bits

PacketSize == 188
SyncByte == 71

Sync(p)       == p[1] = SyncByte
TErr(p)       == Bit(p[2], 7)
Pusi(p)       == Bit(p[2], 6)
Prio(p)       == Bit(p[2], 5)
Pid(p)        == 256 * Field(p[2], 0, 5) + p[3]
Scrambling(p) == Field(p[4], 6, 2)
HasAf(p)      == Bit(p[4], 5)
HasPay(p)     == Bit(p[4], 4)
Cc(p)         == Field(p[4], 0, 4)
AfLen(p)      == p[5]

\* Offset (from 0) of the payload; 0: none, or no room left for one
PayOffset(p) ==
  IF HasPay(p) = 0 THEN 0
  ELSE IF HasAf(p) = 0 THEN 4
  ELSE IF AfLen(p) <= 182 THEN 5 + AfLen(p)
  ELSE 0

Payload(p) == Drop(p, PayOffset(p))

\* Writing one field leaves all other bits alone.
SetPid(p, x)  == [p EXCEPT ![2] = 32 * Field(@, 5, 3) + (x \div 256), ![3] = x % 256]
SetCc(p, x)   == [p EXCEPT ![4] = 16 * Field(@, 4, 4) + x]
SetPay(p, b)  == [p EXCEPT ![4] = 32 * Field(@, 5, 3) + 16 * b + Field(@, 0, 4)]
SetPusi(p, b) == [p EXCEPT ![2] = 128 * Bit(@, 7) + 64 * b + Field(@, 0, 6)]

\* Header of a packet with payload only
Header(pid, pusi, cc) == << SyncByte, 64 * pusi + (pid \div 256), pid % 256, 16 + cc >>

(* What a section receiver needs to know of a packet:                      *)
(*   kind  "none": no payload, "bad": payload announced but impossible,    *)
(*         "pay": payload pay                                              *)
Unpack(p) ==
  [ kind |-> IF HasPay(p) = 0 THEN "none" ELSE IF PayOffset(p) = 0 THEN "bad" ELSE "pay",
    pusi |-> Pusi(p) = 1,
    cc   |-> Cc(p),
    pay  |-> IF PayOffset(p) = 0 THEN <<>> ELSE Payload(p) ]
=============================================================================
