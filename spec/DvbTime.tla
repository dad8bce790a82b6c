------------------------------ MODULE DvbTime -------------------------------
(***************************************************************************)
(* Coded decimals, times and dates of EN 300 468 (annex C, 5.2.5).         *)
(* A point in time is << day, second >>, day 0 being 1970-01-01.           *)
(***************************************************************************)
EXTENDS Bits

\* Two decimal digits in a byte
Bcd(x) == 16 * (x \div 10) + (x % 10)
BcdOk(b) == b \div 16 <= 9 /\ b % 16 <= 9
UnBcd(b) == 10 * (b \div 16) + (b % 16)

\* Decimal numbers of n bytes, most significant first
RECURSIVE BcdSeq(_, _)
BcdSeq(x, n) == IF n = 0 THEN <<>> ELSE BcdSeq(x \div 100, n - 1) \o << Bcd(x % 100) >>
RECURSIVE UnBcdSeq(_)
UnBcdSeq(s) == IF s = <<>> THEN 0 ELSE 100 * UnBcdSeq(Take(s, Len(s) - 1)) + UnBcd(s[Len(s)])
BcdSeqOk(s) == \A i \in 1 .. Len(s) : BcdOk(s[i])

\* hh:mm:ss and hh:mm
Hms(t) == << Bcd(t \div 3600), Bcd((t \div 60) % 60), Bcd(t % 60) >>
UnHms(s) == 3600 * UnBcd(s[1]) + 60 * UnBcd(s[2]) + UnBcd(s[3])
Hm(t) == << Bcd(t \div 60), Bcd(t % 60) >>
UnHm(s) == 60 * UnBcd(s[1]) + UnBcd(s[2])
\* Digits that are a time of day
TimeOk(s) == /\ BcdSeqOk(s) /\ UnBcd(s[1]) < 24 /\ \A i \in 2 .. Len(s) : UnBcd(s[i]) < 60

\* Modified Julian date
Epoch == 40587
Mjd(day) == day + Epoch
UnMjd(m) == IF m < Epoch THEN 0 ELSE m - Epoch
LastDay == 65535 - Epoch

\* Date and time of day, 40 bits
DateTime(t) == B16(Mjd(t[1])) \o Hms(t[2])
UnDateTime(s) == << UnMjd(U16(s, 1)), UnHms(Drop(s, 2)) >>
=============================================================================
