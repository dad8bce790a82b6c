----------------------------- MODULE Trace_Text -----------------------------
(***************************************************************************)
(* Recorded texts (C18, C19).                                              *)
(*   page   every character from .. to encoded in page cp: runs of         *)
(*          << << first, last >>, bytes >>                                 *)
(*   enc    characters c -> text x -> written -> read (back) -> printed    *)
(*   dec    bytes b -> text x, printed                                     *)
(*   split, trunc                                                          *)
(***************************************************************************)
EXTENDS Trace, DvbText

\* Characters not simply "?" in a single byte page
Special(cp) == (0 .. 159) \cup DOMAIN ByteOf[cp] \cup {171, 187, 8216, 8217, 8219, 8220, 8221, 8223, 8230}
SpecialIn == [cp \in SinglePages |-> Special(cp)]

Surrogate == 55296 .. 57343
RunOk(cp, r) ==
  LET f == r[1][1]  l0 == r[1][2]  b == r[2] IN
  IF cp = Utf8 THEN f = l0 /\ b = Utf8Of(f)
  ELSE LET sp == { c \in SpecialIn[cp] : f <= c /\ c <= l0 }
           plain == (l0 - f + 1) - Cardinality(sp)
                    - (IF f < 55296 /\ l0 > 57343 THEN 2048 ELSE 0)
       IN  /\ \A c \in sp : b = Coded(cp, c)
           /\ plain > 0 => b = << Question >>
\* the runs cover from .. to
Covers(h) ==
  LET n == Len(h.runs) IN
  /\ h.runs[1][1][1] = h.from
  /\ h.runs[n][1][2] = h.to
  /\ \A i \in 1 .. n - 1 : \/ h.runs[i + 1][1][1] = h.runs[i][1][2] + 1
                           \/ h.runs[i][1][2] = 55295 /\ h.runs[i + 1][1][1] = 57344

PageVerdict(h) ==
  IF h.from >= 55296 /\ h.to <= 57343 THEN "ok"
  ELSE IF h.cps /= << h.cp >> THEN "encoded in another code page"
  ELSE IF ~ (LET fr == IF h.from \in Surrogate THEN 57344 ELSE h.from IN Covers([h EXCEPT !.from = fr]))
       THEN "harness: characters missing"
  ELSE IF \E i \in 1 .. Len(h.runs) : ~ RunOk(h.cp, h.runs[i]) THEN
    (LET i == CHOOSE j \in 1 .. Len(h.runs) : ~ RunOk(h.cp, h.runs[j])
     IN  "characters " \o ToString(h.runs[i][1]) \o " became " \o ToString(h.runs[i][2]))
  ELSE "ok"

EncVerdict(h) ==
  LET x == Encode(h.c, h.cp)
      w == TextBytes(x)
  IN  IF h.x /= x THEN "wrong bytes"
      ELSE IF h.empty /= (Len(x) = 1) THEN "wrong emptiness"
      ELSE IF h.out /= h.pre \o w THEN "written wrongly"
      ELSE IF h.size /= Len(w) THEN "announced size is not the size written"
      ELSE IF Len(w) <= 255 /\ h.sized /= h.pre \o SizedText(x) THEN "written wrongly with size"
      ELSE IF h.direct /= Printed(x) THEN "printed wrongly"
      ELSE IF TextRoundTrips(x) /\ ~ (h.back = x /\ h.same) THEN "read back differently"
      ELSE IF TextRoundTrips(x) /\ h.print /= Printed(x) THEN "prints differently when read back"
      ELSE "ok"

Unsupported(b) == b[1] \in ({8} \cup 12 .. 15) \/ (b[1] = 16 /\ Len(b) >= 3 /\ b[3] \notin Pages)
DecVerdict(h) ==
  LET b == h.b IN
  IF TextOk(b) THEN
    ( IF h.x /= UnText(b) THEN "read wrongly"
      ELSE IF h.size /= TextSize(h.x) THEN "announced size is not the size written"
      ELSE IF h.out /= TextBytes(h.x) THEN "written wrongly"
      ELSE IF ~ (Cp(h.x) = Utf8 /\ ~ Utf8Ok(Data(h.x))) /\ h.print /= Printed(h.x) THEN "printed wrongly"
      ELSE "ok" )
  ELSE IF Unsupported(b) THEN
    ( IF h.print /= Printed(<< 255 >> \o Drop(b, IF b[1] = 16 THEN 3 ELSE 1)) THEN "unsupported code page printed as if supported"
      ELSE "ok" )
  ELSE IF b[1] \in 17 .. 31 THEN
    ( IF \E i \in 1 .. Len(h.print) : h.print[i] /= Question THEN "reserved selector printed as text" ELSE "ok" )
  ELSE "ok"

SplitVerdict(h) ==
  IF ~ IsSplit(h.x, h.n, h.p) THEN "not a legal split"
  ELSE IF \E i \in 1 .. Len(h.w) : h.w[i] > h.n THEN "a piece is written too long"
  ELSE "ok"

TSteps(h) == 1
TStart(h) == 0
TApply(h, i, a) ==
  Judge(IF h.st /= "ok" THEN "panic"
        ELSE CASE h.k = "page" -> PageVerdict(h)
               [] h.k = "enc" -> EncVerdict(h)
               [] h.k = "dec" -> DecVerdict(h)
               [] h.k = "split" -> SplitVerdict(h)
               [] h.k = "trunc" -> IF IsTruncation(h.x, h.n, h.r) THEN "ok" ELSE "not a legal truncation")
=============================================================================
