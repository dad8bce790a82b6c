------------------------------- MODULE MC_C36 -------------------------------
(***************************************************************************)
(* Several workers of one program, each with its own objects (C36).        *)
(*                                                                         *)
(* A worker receives a stream packet by packet with an accumulator of its  *)
(* own and sends the sections it gets on, as packets of its own PID, into  *)
(* an output all workers share. A call of the library is not one step of   *)
(* the program: it begins (Enter) and ends (Leave), and other workers' calls *)
(* begin and end in between. Between the two a call works in Scratch. That *)
(* belongs to the call; with OneScratch = TRUE there is but one for all    *)
(* calls, and TLC finds workers seeing each other's packets (it is what a  *)
(* library with a static buffer would be; the configurations have FALSE,   *)
(* and Mixes below says what goes wrong otherwise).                        *)
(***************************************************************************)
EXTENDS Receiver, FiniteSets

CONSTANTS Workers, MaxPackets, OneScratch

\* Packets of a stream of three sections of 3 + n bytes, n its first body byte
Sec(w, n) == << 100 + w, 0, n >> \o [i \in 1 .. n |-> w * 16 + i]
Pay(w, i) ==
  CASE i % 4 = 1 -> [kind |-> "pay", pusi |-> TRUE, cc |-> i % 16, pay |-> << 0 >> \o SubSeq(Sec(w, 5), 1, 4)]
    [] i % 4 = 2 -> [kind |-> "pay", pusi |-> FALSE, cc |-> i % 16, pay |-> SubSeq(Sec(w, 5), 5, 8)]
    [] i % 4 = 3 -> [kind |-> "pay", pusi |-> TRUE, cc |-> i % 16, pay |-> << 0 >> \o Sec(w, 2)]
    [] OTHER -> [kind |-> "pay", pusi |-> TRUE, cc |-> i % 16, pay |-> << 0 >> \o Sec(w, 1)]

VARIABLES acc,   \* accumulators
          fed,   \* number of packets each was given
          got,   \* sections each worker got
          call,  \* what each worker is doing: "none", "mux" or "send"
          scr,   \* scratch space
          cc,    \* counters of the packets sent
          sent,  \* number of sections each has sent on
          out    \* the output, << worker, counter, section >>

vars == << acc, fed, got, call, scr, cc, sent, out >>

Place(w) == IF OneScratch THEN 0 ELSE w

Init ==
  /\ acc = [w \in Workers |-> RxInit]
  /\ fed = [w \in Workers |-> 0]
  /\ got = [w \in Workers |-> <<>>]
  /\ call = [w \in Workers |-> "none"]
  /\ scr = [p \in Workers \union {0} |-> [of |-> "nothing"]]
  /\ cc = [w \in Workers |-> 0]
  /\ sent = [w \in Workers |-> 0]
  /\ out = <<>>

EnterMux(w) ==
  /\ call[w] = "none" /\ fed[w] < MaxPackets
  /\ call' = [call EXCEPT ![w] = "mux"]
  /\ fed' = [fed EXCEPT ![w] = @ + 1]
  /\ scr' = [scr EXCEPT ![Place(w)] = [of |-> "packet", x |-> Pay(w, fed[w] + 1)]]
  /\ UNCHANGED << acc, got, cc, sent, out >>

LeaveMux(w) ==
  /\ call[w] = "mux" /\ scr[Place(w)].of = "packet"
  /\ LET r == RxStep(acc[w], scr[Place(w)].x) IN
       /\ acc' = [acc EXCEPT ![w] = r.rx]
       /\ got' = [got EXCEPT ![w] = @ \o r.done]
  /\ call' = [call EXCEPT ![w] = "none"]
  /\ UNCHANGED << fed, scr, cc, sent, out >>

EnterSend(w) ==
  /\ call[w] = "none" /\ sent[w] < Len(got[w])
  /\ call' = [call EXCEPT ![w] = "send"]
  /\ sent' = [sent EXCEPT ![w] = @ + 1]
  /\ scr' = [scr EXCEPT ![Place(w)] = [of |-> "section", x |-> got[w][sent[w] + 1]]]
  /\ UNCHANGED << acc, fed, got, cc, out >>

\* The output is the program's: it lets one worker append at a time
LeaveSend(w) ==
  /\ call[w] = "send" /\ scr[Place(w)].of = "section"
  /\ cc' = [cc EXCEPT ![w] = (@ + 1) % CcMod]
  /\ out' = Append(out, << w, cc'[w], scr[Place(w)].x >>)
  /\ call' = [call EXCEPT ![w] = "none"]
  /\ UNCHANGED << acc, fed, got, scr, sent >>

Next == \E w \in Workers : EnterMux(w) \/ LeaveMux(w) \/ EnterSend(w) \/ LeaveSend(w)

Spec == Init /\ [][Next]_vars
        /\ \A w \in Workers : WF_vars(EnterMux(w) \/ LeaveMux(w)) /\ SF_vars(EnterSend(w)) /\ WF_vars(LeaveSend(w))

-----------------------------------------------------------------------------
\* A worker alone, given its first n packets
RECURSIVE Alone(_, _)
Alone(w, n) ==
  IF n = 0 THEN [rx |-> RxInit, got |-> <<>>]
  ELSE LET a == Alone(w, n - 1)
           r == RxStep(a.rx, Pay(w, n)) IN [rx |-> r.rx, got |-> a.got \o r.done]

Given(w) == fed[w] - (IF call[w] = "mux" THEN 1 ELSE 0)
Posted(w) == sent[w] - (IF call[w] = "send" THEN 1 ELSE 0)

\* Every worker is where it would be alone
Apart == \A w \in Workers : LET a == Alone(w, Given(w)) IN acc[w] = a.rx /\ got[w] = a.got

\* Its part of the output is what it would have sent alone
Mine(w) == SelectSeq(out, LAMBDA x : x[1] = w)
OwnOutput == \A w \in Workers : LET m == Mine(w) IN
  /\ Len(m) = Posted(w)
  /\ \A i \in 1 .. Len(m) : m[i] = << w, i % CcMod, got[w][i] >>

\* Nothing of another worker
Mixes == \E w \in Workers : \E i \in 1 .. Len(got[w]) : got[w][i][1] /= 100 + w
NeverMixes == ~ Mixes

\* No worker waits for another one: what is given to it is sent on
Serves == \A w \in Workers : <>[](fed[w] = MaxPackets /\ Len(Mine(w)) = Len(Alone(w, MaxPackets).got))
=============================================================================
