---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Recorded sessions of generated parsers are behaviours of Session.       *)
(*                                                                         *)
(* A history is the list of what the driver saw: calls begun, work done up *)
(* to the next stop in user code or to the end of the call (then with what *)
(* the call returned), panics, and how the calls they end did.  Outcomes are     *)
(* names standing for texts;   alone[j] is the outcome of job j in a       *)
(* process of its own.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Corpus == JsonDeserialize(IOEnv.CORPUS)
N == Len(Corpus.histories)
MaxCalls == Corpus.calls

VARIABLES h, j, stk, next, own, alone, ret, pan, sch

H == Corpus.histories[h]

S == INSTANCE Session WITH Threads <- 1..Corpus.threads, Calls <- MaxCalls, Segs <- 1000000, MaxDepth <- 100, MaxPanics <- 100

Init == h \in 1..N /\ j = 0 /\ S!Start([c \in 1..MaxCalls |-> IF c <= Len(H.jobs) THEN Corpus.alone[H.jobs[c]] ELSE "none"])

\* e: [t, k, c, f (ended), o (outcome)]
Event(e) ==
  CASE e.k = "B" -> S!Begin(e.t) /\ e.c = next
    [] e.k = "S" -> /\ stk[e.t] # <<>> /\ S!Top(e.t) = e.c
                    /\ S!Work(e.t, e.f = 1)
                    /\ (e.f = 1 => e.o = ret'[e.c])
    [] e.k = "U" -> stk[e.t] # <<>> /\ S!Top(e.t) = e.c /\ S!Panic(e.t) /\ e.f = 0
    [] e.k = "X" -> stk[e.t] # <<>> /\ S!Top(e.t) = e.c /\ S!Abort(e.t) /\ e.f = 1 /\ e.o = ret'[e.c]

Name(e) == ToString(e)

Next ==
  /\ j < Len(H.ev)
  /\ LET e == H.ev[j + 1] IN
     IF ENABLED Event(e) THEN Event(e) /\ j' = j + 1 /\ h' = h
     ELSE /\ PrintT("@MIS " \o ToString(h) \o " " \o ToString(j + 1) \o " " \o Name(e))
          /\ j' = Len(H.ev) + 1 /\ UNCHANGED <<h, stk, next, own, alone, ret, pan, sch>>

Spec == Init /\ [][Next]_<<h, j, stk, next, own, alone, ret, pan, sch>>

AsAlone == S!AsAlone
\* A history read to its end leaves no call unfinished.
Complete == j = Len(H.ev) => (\A t \in 1..Corpus.threads : stk[t] = <<>>) /\ next = Len(H.jobs) + 1
=============================================================================
