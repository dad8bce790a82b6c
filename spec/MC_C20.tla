------------------------------- MODULE MC_C20 -------------------------------
(***************************************************************************)
(* The coded forms are one-to-one; modified Julian dates count the days of *)
(* the calendar, checked against the date formula of EN 300 468 annex C.   *)
(***************************************************************************)
EXTENDS DvbTime
VARIABLES day, y, m, d     \* a day and its calendar date, running
Leap(yy) == (yy % 4 = 0) /\ (yy % 100 /= 0 \/ yy % 400 = 0)
DaysIn(yy, mm) == IF mm = 2 THEN (IF Leap(yy) THEN 29 ELSE 28) ELSE IF mm \in {4, 6, 9, 11} THEN 30 ELSE 31
Init == day = 0 /\ y = 1970 /\ m = 1 /\ d = 1
Next == /\ day < LastDay /\ day' = day + 1
        /\ IF d < DaysIn(y, m) THEN d' = d + 1 /\ UNCHANGED << y, m >>
           ELSE /\ d' = 1
                /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
\* Annex C: MJD = 14956 + D + int((Y - L) * 365.25) + int((M + 1 + L * 12) * 30.6001)
AnnexC == LET l == IF m <= 2 THEN 1 ELSE 0
              yy == y - 1900 - l
              mm == m + 1 + 12 * l
          IN  14956 + d + ((yy * 36525) \div 100) + ((mm * 306001) \div 10000)
Julian == Mjd(day) = AnnexC /\ UnMjd(Mjd(day)) = day
\* also: times and decimals, spread over the days
Times == LET t == (day * 37) % 86400  dur == (day * 1447) % 360000  n == (day * 40009) % 100000000 IN
         /\ UnDateTime(DateTime(<< day, t >>)) = << day, t >>
         /\ UnHms(Hms(dur)) = dur /\ BcdSeqOk(Hms(dur))
         /\ UnBcdSeq(BcdSeq(n, 4)) = n /\ BcdSeqOk(BcdSeq(n, 4))
         /\ UnHm(Hm(day % 6000)) = day % 6000
=============================================================================
