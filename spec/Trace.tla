------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: the events recorded while a real generated parser ran *)
(* have to be exactly the events of the machine's behaviour on the same    *)
(* grammar and input, and the outcome its outcome.                         *)
(*                                                                         *)
(* Case fields: tk = "in" (calls of the Parse traits) or "rule" (lines     *)
(* printed by the trace feature) or "none", log = recorded events, o = outcome.      *)
(***************************************************************************)
EXTENDS Peg, Json, IOUtils

Corpus == JsonDeserialize(IOEnv.CORPUS)
Grammars == Corpus.grammars
Cases == Corpus.cases
Budget == Corpus.budget

VARIABLES k, foc, stk, err, memo, evals, ev, cur, bad, steps, tot

M == INSTANCE PegMachine

InputEvent(e) == SubSeq(e, 1, 2) \in {"E ", "L ", "S "}
\* (tk = "none": the outcome alone counts)
Keep(s) == IF Cases[k].tk = "none" THEN <<>> ELSE SelectSeq(s, LAMBDA e : InputEvent(e) = (Cases[k].tk = "in"))

Init == M!Init /\ cur = 0 /\ bad = "" /\ steps = 0 /\ tot = 0

Log == Cases[k].log

\* The next machine step, and the recorded events it has to match.
Advance ==
  /\ foc.t \notin {"end", "done"} /\ bad = "" /\ steps < Budget
  /\ M!Step
  /\ LET want == Keep(ev') IN
     IF want = <<>> THEN cur' = cur /\ bad' = bad
     ELSE IF cur < Len(Log) /\ Log[cur + 1] = want[1]
     THEN cur' = cur + 1 /\ bad' = bad
     ELSE IF SubSeq(want[1], 1, 2) = "S "          \* a slice nobody looks at need not be taken
     THEN cur' = cur /\ bad' = bad
     ELSE cur' = cur /\ bad' = (IF err.re THEN "pass2 " ELSE "pass1 ") \o "event " \o ToString(cur + 1) \o ": machine does <" \o want[1] \o ">, recorded <"
                               \o (IF cur < Len(Log) THEN Log[cur + 1] ELSE "nothing more") \o ">"
  /\ steps' = steps + 1 /\ tot' = tot + 1

\* Compare outcomes once the machine is done.
Whole(o) == IF M!Entry.top = 1 THEN NodeV("top", <<o.v, PosV(o.e)>>) ELSE o.v
Outcome ==
  LET o == Cases[k].o
      I == M!I
  IN
  IF foc.o.k # o.k THEN "outcome RES: machine " \o foc.o.k \o ", recorded " \o o.k
  ELSE IF o.k = "O" THEN (IF foc.o.v # Whole(o) THEN "outcome VAL: machine " \o foc.o.v \o ", recorded " \o Whole(o) ELSE "")
  ELSE IF o.k = "E" THEN (IF (IF I.ix = 1 THEN foc.o.at ELSE Off(I, foc.o.at)) # o.off THEN "outcome LOC: machine " \o ToString(foc.o.at) \o ", recorded offset " \o ToString(o.off)
                          ELSE IF foc.o.toks # {o.toks[i] : i \in 1..Len(o.toks)} THEN "outcome EXP: machine " \o ToString(foc.o.toks) ELSE "")
  ELSE ""

Report(what) == IF what = "" THEN TRUE ELSE PrintT("@MIS " \o ToString(Cases[k].id) \o " " \o what)

MaxEvals == IF DOMAIN evals = {} THEN 0 ELSE LET S == {evals[x] : x \in {y \in DOMAIN evals : Grammars[Cases[k].g].rules[y[1]].cache = "memo"}} IN
            IF S = {} THEN 0 ELSE CHOOSE n \in S : \A q \in S : q <= n

Finish ==
  /\ foc.t # "end" /\ (foc.t = "done" \/ bad # "" \/ steps >= Budget)
  /\ Report(IF bad # "" THEN bad
            ELSE IF foc.t # "done" THEN "@budget"
            ELSE IF cur < Len(Log) THEN "event " \o ToString(cur + 1) \o ": machine stops, recorded <" \o Log[cur + 1] \o ">"
            ELSE Outcome)
  /\ (IF Corpus.stats = 1 THEN PrintT("@ST " \o ToString(Cases[k].id) \o " " \o ToString(cur) \o " " \o ToString(steps)) ELSE TRUE)
  /\ M!Start(k + 1)
  /\ cur' = 0 /\ bad' = "" /\ steps' = 0 /\ tot' = tot

Next == Advance \/ Finish
Spec == Init /\ [][Next]_<<k, foc, stk, err, memo, evals, ev, cur, bad, steps, tot>>

Done == foc.t = "end"
SuppressionBalanced == Done \/ M!SuppressionBalanced
PositionsInside == Done \/ M!PositionsInside
CachedAtMostTwice == Done \/ M!CachedAtMostTwice
FirstPassCollectsNothing == Done \/ M!FirstPassCollectsNothing
Agrees == Done \/ Corpus.agree = 0 \/ M!Agrees
LocationFixed == [][Done \/ M!LocationFixed]_<<k, err>>
MemoStable == [][Done \/ M!MemoStable]_<<k, err, memo>>

\* Every case was run to its end (k is read from the last state: one behaviour).
AllChecked == TLCGet("stats").diameter >= 1
=============================================================================
