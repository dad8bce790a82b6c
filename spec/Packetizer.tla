----------------------------- MODULE Packetizer -----------------------------
(***************************************************************************)
(* Cutting a section into packets with pay bytes of payload each: the      *)
(* first begins with a zero pointer, the last is filled with FF.           *)
(***************************************************************************)
EXTENDS TsPacket

NPackets(n, pay) == (n + 1 + pay - 1) \div pay

\* The k-th packet (from 0) of section sec
Packet(sec, k, cc, pay) ==
  LET all == << 0 >> \o sec
      b   == SubSeq(all, k * pay + 1, Min2((k + 1) * pay, Len(all)))
  IN  [ kind |-> "pay", pusi |-> k = 0, cc |-> (cc + k) % 16, pay |-> b \o Rep(255, pay - Len(b)) ]

Packetize(sec, cc, pay) == [k \in 1 .. NPackets(Len(sec), pay) |-> Packet(sec, k - 1, cc, pay)]
NextCc(sec, cc, pay) == (cc + NPackets(Len(sec), pay)) % 16

\* As bytes of the stream
PacketBytes(p, pid) == Header(pid, IF p.pusi THEN 1 ELSE 0, p.cc) \o p.pay
SectionBytes(sec, pid, cc) ==
  LET ps == Packetize(sec, cc, PacketSize - 4) IN Concat([k \in 1 .. Len(ps) |-> PacketBytes(ps[k], pid)])

-----------------------------------------------------------------------------
(* The other direction: the sections in a byte string of whole packets,    *)
(* each section beginning in a packet of its own with zero pointer.        *)

PacketAt(d, k) == Mid(d, PacketSize * (k - 1) + 1, PacketSize)
StartsIn(d) == { k \in 1 .. (Len(d) \div PacketSize) : Pusi(PacketAt(d, k)) = 1 }

\* The section beginning in packet k of d and ending before packet e
SectionIn(d, k, e) ==
  LET all == Concat([j \in 1 .. (e - k) |-> Drop(PacketAt(d, k + j - 1), 4)])
      sec == Drop(all, 1)
      n   == 3 + 256 * (sec[2] % 16) + sec[3]
  IN  Take(sec, n)

SectionsIn(d) ==
  LET st == SetToSortSeq(StartsIn(d), LAMBDA a, b : a < b)
      n  == Len(d) \div PacketSize
  IN  [i \in 1 .. Len(st) |-> SectionIn(d, st[i], IF i < Len(st) THEN st[i + 1] ELSE n + 1)]

\* d consists of whole packets that are the packetisation of some sections
RECURSIVE BytesOf(_, _, _)
BytesOf(secs, pid, cc) ==
  IF secs = <<>> THEN <<>>
  ELSE SectionBytes(Head(secs), pid, cc) \o BytesOf(Tail(secs), pid, NextCc(Head(secs), cc, PacketSize - 4))

IsPackets(d, pid, cc) ==
  /\ Len(d) % PacketSize = 0
  /\ d /= <<>> => 1 \in StartsIn(d)
  /\ LET s == SectionsIn(d) IN BytesOf(s, pid, cc) = d
=============================================================================
