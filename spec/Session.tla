------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Calls of parser functions on several threads.                           *)
(*                                                                         *)
(* A call is a run through Segs segments of work, between which its thread *)
(* is in code supplied by the user (an input trait, a matcher or an        *)
(* action).  There, the thread may begin another call (which is then       *)
(* nested in the first), the other threads may go on, and the user's code  *)
(* may panic, which ends the call: once the destructors on the way have    *)
(* run, which may begin calls as well.                                     *)
(*                                                                         *)
(* Everything a call works with belongs to it alone: own[c] is the state   *)
(* of call c, changed by the steps of c and by nothing else, so that what  *)
(* a call returns is a function of how it was begun: alone[c], the outcome *)
(* it has when nothing else goes on.                                       *)
(*                                                                         *)
(* Every terminal state is a schedule to be replayed (sch).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Calls, Segs, MaxDepth, MaxPanics

VARIABLES stk,    \* per thread: the calls it is in, the innermost last
          next,   \* the next call to begin
          own,    \* per call: number of segments done, -1 not begun, -2 aborted, -3 being aborted
          alone,  \* per call: the outcome it has when nothing else goes on
          ret,    \* per call: what it returned, "" while it has not
          pan,    \* panics so far
          sch     \* what happened, in order

vars == <<stk, next, own, alone, ret, pan, sch>>

Start(out) ==
        /\ alone = out
        /\ stk = [t \in Threads |-> <<>>]
        /\ next = 1
        /\ own = [c \in 1..Calls |-> -1]
        /\ ret = [c \in 1..Calls |-> ""]
        /\ pan = 0
        /\ sch = <<>>

Init == Start([c \in 1..Calls |-> ToString(c)])

Top(t) == stk[t][Len(stk[t])]
Popped(t) == [stk EXCEPT ![t] = SubSeq(stk[t], 1, Len(stk[t]) - 1)]
In(t) == Len(stk[t]) > 0
\* In the user's code, or not in a call at all.
Free(t) == In(t) => own[Top(t)] >= 1 \/ own[Top(t)] = -3
\* A second panic in the course of the first would end the process.
Unwinding(t) == \E i \in 1..Len(stk[t]) : own[stk[t][i]] = -3

Begin(t) ==
  /\ next <= Calls /\ Len(stk[t]) < MaxDepth /\ Free(t)
  /\ stk' = [stk EXCEPT ![t] = Append(@, next)]
  /\ own' = [own EXCEPT ![next] = 0]
  /\ next' = next + 1
  /\ sch' = Append(sch, <<t, "B", next>>)
  /\ UNCHANGED <<pan, ret, alone>>

\* A segment of work, the last one if fin.
Work(t, fin) ==
  /\ In(t) /\ own[Top(t)] >= 0
  /\ LET c == Top(t) IN
     /\ own' = [own EXCEPT ![c] = @ + 1]
     /\ stk' = IF fin THEN Popped(t) ELSE stk
     /\ ret' = IF fin THEN [ret EXCEPT ![c] = alone[c]] ELSE ret
     /\ sch' = Append(sch, <<t, "S", c>>)
  /\ UNCHANGED <<next, pan, alone>>

Step(t) == In(t) /\ Work(t, own[Top(t)] + 1 = Segs)

\* User code panics ...
Panic(t) ==
  /\ In(t) /\ own[Top(t)] >= 1 /\ pan < MaxPanics /\ ~Unwinding(t)
  /\ own' = [own EXCEPT ![Top(t)] = -3]
  /\ pan' = pan + 1
  /\ sch' = Append(sch, <<t, "U", Top(t)>>)
  /\ UNCHANGED <<stk, next, ret, alone>>

\* ... and the call is over.
Abort(t) ==
  /\ In(t) /\ own[Top(t)] = -3
  /\ own' = [own EXCEPT ![Top(t)] = -2]
  /\ ret' = [ret EXCEPT ![Top(t)] = "panic"]
  /\ stk' = Popped(t)
  /\ sch' = Append(sch, <<t, "X", Top(t)>>)
  /\ UNCHANGED <<next, alone, pan>>

Next == \E t \in Threads : Begin(t) \/ Step(t) \/ Panic(t) \/ Abort(t)
Spec == Init /\ [][Next]_vars

Over == next > Calls /\ \A t \in Threads : ~In(t)

----------------------------------------------------------------------------
(* A step of one thread leaves every call of the others, and every call it is nested in, as it was. *)
Apart == [][\A c \in 1..Calls : own'[c] # own[c] => \E t \in Threads : (In(t) /\ c = Top(t)) \/ (Len(stk'[t]) > Len(stk[t]) /\ c = next)]_vars
(* A call is in one place at most, and work is done in the order it was begun in. *)
OnePlace == \A t, u \in Threads : \A i \in 1..Len(stk[t]) : \A j \in 1..Len(stk[u]) : stk[t][i] = stk[u][j] => t = u /\ i = j
Nested == \A t \in Threads : \A i \in 1..Len(stk[t]) : \A j \in 1..Len(stk[t]) : i < j => stk[t][i] < stk[t][j]
(* Without panics, every call begun comes to its end. *)
AllEnd == Over => \A c \in 1..Calls : own[c] \in {Segs, -2}
(* A call returns what it returns alone, unless user code ended it. *)
AsAlone == \A c \in 1..Calls : ret[c] \in {"", alone[c]} \/ (ret[c] = "panic" /\ own[c] = -2)
(* What a call returned is final. *)
Final == [][\A c \in 1..Calls : ret[c] # "" => ret'[c] = ret[c]]_vars

\* threads are alike: the first call is begun by the first one
Symmetric == sch = <<>> \/ sch[1][1] = 1
Emit == Over => PrintT(<<"@SCH", sch>>)
=============================================================================
