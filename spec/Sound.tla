------------------------------- MODULE Sound -------------------------------
(***************************************************************************)
(* What the static analysis promises, checked on the machine: a grammar in *)
(* which PegAnalysis finds neither left recursion nor repetitions that can *)
(* spin                                                                    *)
(*   - never evaluates a rule inside itself at the same position, and      *)
(*   - comes to an end on every input.                                     *)
(* Corpus: grammars in the form of Peg and (an) in that of PegAnalysis;    *)
(* cases as in Conform.  Nothing here comes from an implementation.        *)
(***************************************************************************)
EXTENDS Peg, Json, IOUtils

Corpus == JsonDeserialize(IOEnv.CORPUS)
Grammars == Corpus.grammars
Cases == Corpus.cases
Budget == Corpus.budget

VARIABLES k, foc, stk, err, memo, evals, ev, steps, most, judged

M == INSTANCE PegMachine
A == INSTANCE PegAnalysis

\* verdict on grammar g: <<left recursive, can spin>>
Judge(g) == LET a == Corpus.an[g]
                N == A!EmptyRules(a)
            IN <<A!LeftRecursive(a, A!Reaches(a, N)) # {}, A!Spins(a, N) # {}>>

Current == Cases[k].g
Fine == ~judged[1] /\ ~judged[2]
\* (runs of grammars the analysis rejects are only looked at for a while)
Over == foc.t = "done" \/ steps >= (IF judged[1] \/ judged[2] THEN Corpus.peek ELSE Budget)
Live == foc.t # "end"

Init == M!Init /\ steps = 0 /\ most = 0 /\ judged = IF Len(Cases) = 0 THEN <<FALSE, FALSE>> ELSE Judge(Cases[1].g)

\* A call inside itself at the same position (of a rule without parameters, and not one that grows).
Inside == \E i, j \in 1..Len(stk) : /\ i < j
                                    /\ stk[i].f \in {"rule", "memo"} /\ stk[j].f \in {"rule", "memo"}
                                    /\ stk[i].r = stk[j].r /\ stk[i].p = stk[j].p
                                    /\ Len(Grammars[Current].rules[stk[j].r].params) = 0

Advance == /\ Live /\ ~Over /\ ~(Len(stk) > 200)
           /\ M!Step /\ steps' = steps + 1 /\ UNCHANGED <<most, judged>>

Finish == /\ Live /\ (Over \/ Len(stk) > 200)
          /\ LET end == foc.t = "done" IN
             /\ IF end \/ ~Fine THEN TRUE ELSE PrintT("@MIS " \o ToString(Cases[k].id) \o " no end after " \o ToString(steps) \o " steps")
             /\ PrintT("@ST " \o ToString(Cases[k].id) \o " " \o (IF judged[1] THEN "1" ELSE "0") \o " " \o (IF judged[2] THEN "1" ELSE "0") \o " " \o (IF end THEN "1" ELSE "0") \o " " \o ToString(steps))
          /\ M!Start(k + 1) /\ steps' = 0 /\ most' = IF steps > most THEN steps ELSE most
          /\ judged' = IF k + 1 > Len(Cases) THEN <<FALSE, FALSE>> ELSE IF Cases[k + 1].g = Current THEN judged ELSE Judge(Cases[k + 1].g)

Next == Advance \/ Finish
Spec == Init /\ [][Next]_<<k, foc, stk, err, memo, evals, ev, steps, most, judged>>

NeverInsideItself == Live /\ Fine => ~Inside
\* What accepted grammars compute is also well-behaved.
Balanced == Live => M!SuppressionBalanced
Positions == Live => M!PositionsInside
\* (rules that grow are compared where only one grows at a time: by the checks of C09)
Grows == \E r \in DOMAIN Grammars[Current].rules : Grammars[Current].rules[r].cache = "lr"
Agrees == Live /\ Fine => (Grows \/ M!Agrees)
=============================================================================
