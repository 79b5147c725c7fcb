----------------------------- MODULE PegMachine -----------------------------
(***************************************************************************)
(* A generated rust-peg parser as a small-step state machine.              *)
(*                                                                         *)
(* Where Peg.tla says what a parse means, this module says how it is done: *)
(* a control stack with one frame per active construct, a memo table per   *)
(* pass, the register of the furthest failure, the counter of silencing    *)
(* constructs, and two passes over the input (the second one only to       *)
(* collect the expected set).  Every action also emits the observable      *)
(* events of that step:                                                    *)
(*   calls of the Parse traits   E p | L p literal | S p q                 *)
(*   rule attempts (trace)       A r p | M r p q | F r p | CM r p | CF r p *)
(*                               EN level | LV level                       *)
(* Cases is the list of parses; the machine runs one after the other.      *)
(***************************************************************************)
EXTENDS Peg

CONSTANTS Grammars, Cases

VARIABLES
  k,      \* index of the current case
  foc,    \* what is being done: evaluate / return / ...
  stk,    \* control stack, top is the last element
  err,    \* [max, sup, re, toks]
  memo,   \* <<rule, position, quiet>> -> result
  evals,  \* <<rule, position>> -> evaluations of the body in this pass
  ev      \* events emitted by the last step

vars == <<k, foc, stk, err, memo, evals, ev>>

Case == Cases[k]
G == Grammars[Case.g]
I == Case.i
Entry == G.ents[Case.e]

Empty == [x \in {} |-> 0]
FailR == [ok |-> FALSE, p |-> 0, v |-> ""]
OkR(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

Ev(n, p, env)  == [t |-> "ev", n |-> n, p |-> p, env |-> env]
Ret(r)         == [t |-> "rt", r |-> r]
Body(r, p, env) == [t |-> "body", r |-> r, p |-> p, env |-> env]

Top == stk[Len(stk)]
Pop == SubSeq(stk, 1, Len(stk) - 1)
Push(f) == Append(stk, f)
Swap(f) == [stk EXCEPT ![Len(stk)] = f]

Nd == G.nodes[foc.n]
R  == foc.r

\* Positions as the trace prints them.
At(p) == IF I.lc = 1 THEN ToString(Line(I, p)) \o ":" \o ToString(ColFrom(I, p))
         ELSE IF I.ix = 1 THEN ToString(p) ELSE ToString(Off(I, p))

\* Mark a reportable failure of token tok at p.
Marked(e, p, tok) ==
  IF e.sup > 0 THEN e
  ELSE IF e.re THEN (IF p = e.max THEN [e EXCEPT !.toks = @ \cup {tok}] ELSE e)
  ELSE IF p > e.max THEN [e EXCEPT !.max = p] ELSE e

Start(kk) ==
  /\ k' = kk
  /\ foc' = IF kk > Len(Cases) THEN [t |-> "end"]
            ELSE Ev(Grammars[Cases[kk].g].ents[Cases[kk].e].n, 0, Env0(Grammars[Cases[kk].g]))
  /\ stk' = <<>>
  /\ err' = [max |-> 0, sup |-> 0, re |-> FALSE, toks |-> {}]
  /\ memo' = Empty
  /\ evals' = Empty
  /\ ev' = <<>>

Init ==
  /\ k = 1
  /\ foc = IF Len(Cases) = 0 THEN [t |-> "end"] ELSE Ev(Grammars[Cases[1].g].ents[Cases[1].e].n, 0, Env0(Grammars[Cases[1].g]))
  /\ stk = <<>>
  /\ err = [max |-> 0, sup |-> 0, re |-> FALSE, toks |-> {}]
  /\ memo = Empty
  /\ evals = Empty
  /\ ev = <<>>

\* Frame for a run through the elements es of a sequence or operator.
SeqF(kind, es, i, env, x) == [f |-> "seq", kind |-> kind, es |-> es, i |-> i, env |-> env, x |-> x]

Same == /\ k' = k /\ evals' = evals
Quietly == Same /\ memo' = memo /\ err' = err /\ ev' = <<>>

----------------------------------------------------------------------------
(******************** evaluating one expression ***************************)
EvLit ==
  /\ Nd.k = "lit"
  /\ LET hit == HasLit(I, foc.p, Nd.s) IN
     /\ foc' = Ret(IF hit THEN OkR(foc.p + Len(Nd.s), Unit) ELSE FailR)
     /\ err' = IF hit THEN err ELSE Marked(err, foc.p, Nd.tok)
  /\ ev' = <<"L " \o ToString(foc.p) \o " " \o JoinAll(Nd.s, " ")>>
  /\ stk' = stk /\ memo' = memo /\ Same

EvPat ==
  /\ Nd.k = "pat"
  /\ LET hit == foc.p < Size(I) /\ (InSet(Nd, ElemAt(I, foc.p)) # (Nd.inv = 1)) IN
     /\ foc' = Ret(IF hit THEN OkR(foc.p + 1, CharV(ElemAt(I, foc.p))) ELSE FailR)
     /\ err' = IF hit THEN err ELSE Marked(err, foc.p, Nd.tok)
  /\ ev' = <<"E " \o ToString(foc.p)>>
  /\ stk' = stk /\ memo' = memo /\ Same

EvFail ==
  /\ Nd.k \in {"fail", "failx"}
  /\ foc' = Ret(FailR)
  /\ err' = Marked(err, foc.p, IF Nd.k = "fail" THEN Nd.tok ELSE foc.env.o[Nd.x].tok)
  /\ ev' = <<>> /\ stk' = stk /\ memo' = memo /\ Same

EvPos ==
  /\ Nd.k = "pos"
  /\ foc' = Ret(OkR(foc.p, PosV(Off(I, foc.p))))
  /\ stk' = stk /\ Quietly

\* Custom matchers and input methods report nothing; what they return is what
\* the denotation says.
EvCustom ==
  /\ Nd.k \in {"cus", "met", "metx"}
  /\ LET r == Match(G, I, foc.n, foc.p, foc.env, NoSeeds) IN
     foc' = Ret([ok |-> r.ok, p |-> r.p, v |-> r.v])
  /\ ev' = IF Nd.k = "cus" THEN <<>>
           ELSE <<"L " \o ToString(foc.p) \o " " \o JoinAll(IF Nd.k = "met" THEN Nd.s ELSE foc.env.o[Nd.x].s, " ")>>
  /\ stk' = stk /\ memo' = memo /\ err' = err /\ Same

\* Begin a run through es; an empty run ends at once (focus "fin").
RunSeq(base, fr, p) ==
  IF Len(fr.es) = 0
  THEN /\ stk' = Append(base, fr) /\ foc' = [t |-> "fin", p |-> p]
  ELSE /\ stk' = Append(base, fr) /\ foc' = Ev(fr.es[1].n, p, fr.env)

EvSeq ==
  /\ Nd.k = "seq"
  /\ RunSeq(stk, SeqF("seq", Nd.es, 1, foc.env, [n |-> foc.n]), foc.p)
  /\ Quietly

EvAlt ==
  /\ Nd.k = "alt"
  /\ stk' = Push([f |-> "alt", n |-> foc.n, i |-> 1, p |-> foc.p, env |-> foc.env])
  /\ foc' = Ev(Nd.ns[1], foc.p, foc.env)
  /\ Quietly

EvOpt ==
  /\ Nd.k = "opt"
  /\ stk' = Push([f |-> "opt", p |-> foc.p])
  /\ foc' = Ev(Nd.n, foc.p, foc.env)
  /\ Quietly

EvSlice ==
  /\ Nd.k = "sl"
  /\ stk' = Push([f |-> "sl", p |-> foc.p])
  /\ foc' = Ev(Nd.n, foc.p, foc.env)
  /\ Quietly

\* &e, !e and quiet!{e} raise the suppression counter
EvSilent ==
  /\ Nd.k \in {"and", "not", "quiet"}
  /\ stk' = Push([f |-> Nd.k, p |-> foc.p])
  /\ foc' = Ev(Nd.n, foc.p, foc.env)
  /\ err' = [err EXCEPT !.sup = @ + 1]
  /\ ev' = <<>> /\ memo' = memo /\ Same

EvRep ==
  /\ Nd.k = "rep"
  /\ stk' = Push([f |-> "rep", n |-> foc.n, env |-> foc.env, q |-> foc.p, cnt |-> 0, acc |-> <<>>, ph |-> "body"])
  /\ foc' = [t |-> "loop"]
  /\ Quietly

\* Head of a repetition's loop: maximum reached? separator needed?
RepLoop ==
  /\ foc.t = "loop"
  /\ LET fr == Top
         nd == G.nodes[fr.n]
         max == BoundOf(nd.max, fr.env, Unbounded)
     IN IF max # Unbounded /\ fr.cnt >= max
        THEN foc' = [t |-> "repend"] /\ stk' = stk
        ELSE IF nd.sep # 0 /\ fr.cnt > 0
        THEN foc' = Ev(nd.sep, fr.q, fr.env) /\ stk' = Swap([fr EXCEPT !.ph = "sep"])
        ELSE foc' = Ev(nd.n, fr.q, fr.env) /\ stk' = Swap([fr EXCEPT !.ph = "body"])
  /\ Quietly

RepEnd ==
  /\ foc.t = "repend"
  /\ LET fr == Top
         nd == G.nodes[fr.n]
     IN foc' = Ret(IF fr.cnt >= BoundOf(nd.min, fr.env, 0) THEN OkR(fr.q, ListV(fr.acc)) ELSE FailR)
  /\ stk' = Pop
  /\ Quietly

EvPar ==
  /\ Nd.k = "par"
  /\ LET c == foc.env.o[Nd.x] IN foc' = Ev(c.n, foc.p, c.env)
  /\ stk' = stk /\ Quietly

----------------------------------------------------------------------------
(******************** rule calls, memo tables, growing ********************)
Lookup(r, p, quiet) ==
  IF <<r, p, FALSE>> \in DOMAIN memo THEN <<memo[<<r, p, FALSE>>]>>
  ELSE IF quiet /\ <<r, p, TRUE>> \in DOMAIN memo THEN <<memo[<<r, p, TRUE>>]>>
  ELSE <<>>

Store(key, r) == (key :> r) @@ memo

EvCallPlain ==
  /\ Nd.k = "call" /\ G.rules[Nd.r].cache = "no"
  /\ stk' = Push([f |-> "rule", r |-> Nd.r, p |-> foc.p])
  /\ foc' = Body(Nd.r, foc.p, CallEnv(G, Nd, foc.env))
  /\ Quietly

EvCallHit ==
  /\ Nd.k = "call" /\ G.rules[Nd.r].cache # "no"
  /\ LET h == Lookup(Nd.r, foc.p, err.sup > 0) IN
     /\ h # <<>>
     /\ foc' = Ret(h[1])
     /\ ev' = <<(IF h[1].ok THEN "CM " ELSE "CF ") \o Nd.r \o " " \o At(foc.p)>>
  /\ stk' = stk /\ memo' = memo /\ err' = err /\ Same

EvCallMiss ==
  /\ Nd.k = "call" /\ G.rules[Nd.r].cache # "no"
  /\ Lookup(Nd.r, foc.p, err.sup > 0) = <<>>
  /\ LET quiet == err.sup > 0
         env == CallEnv(G, Nd, foc.env)
     IN /\ foc' = Body(Nd.r, foc.p, env)
        /\ IF G.rules[Nd.r].cache = "memo"
           THEN /\ stk' = Push([f |-> "memo", r |-> Nd.r, p |-> foc.p, q |-> quiet])
                /\ memo' = memo
           ELSE /\ stk' = Push([f |-> "grow", r |-> Nd.r, p |-> foc.p, q |-> quiet, last |-> FailR, env |-> env])
                /\ memo' = Store(<<Nd.r, foc.p, quiet>>, FailR)
  /\ err' = err /\ ev' = <<>> /\ Same

\* Enter the body of a rule.
EnterBody ==
  /\ foc.t = "body"
  /\ foc' = Ev(G.rules[foc.r].body, foc.p, foc.env)
  /\ evals' = (<<foc.r, foc.p>> :> (IF <<foc.r, foc.p>> \in DOMAIN evals THEN evals[<<foc.r, foc.p>>] + 1 ELSE 1)) @@ evals
  /\ ev' = <<"A " \o foc.r \o " " \o At(foc.p)>>
  /\ k' = k /\ stk' = stk /\ err' = err /\ memo' = memo

RuleEvent(fr) == IF R.ok THEN "M " \o fr.r \o " " \o At(fr.p) \o " " \o At(R.p)
                 ELSE "F " \o fr.r \o " " \o At(fr.p)

LeaveRule ==
  /\ Top.f = "rule"
  /\ foc' = foc /\ stk' = Pop
  /\ ev' = <<RuleEvent(Top)>> /\ memo' = memo /\ err' = err /\ Same

LeaveMemo ==
  /\ Top.f = "memo"
  /\ foc' = foc /\ stk' = Pop
  /\ memo' = Store(<<Top.r, Top.p, Top.q>>, R)
  /\ ev' = <<RuleEvent(Top)>> /\ err' = err /\ Same

\* A left-recursive rule: grow the seed while the match gets longer.
GrowMore ==
  /\ Top.f = "grow"
  /\ LET fr == Top
         more == R.ok /\ (~fr.last.ok \/ R.p > fr.last.p)
     IN IF more
        THEN /\ memo' = Store(<<fr.r, fr.p, fr.q>>, R)
             /\ stk' = Swap([fr EXCEPT !.last = R])
             /\ foc' = Body(fr.r, fr.p, fr.env)
        ELSE /\ memo' = memo
             /\ stk' = Pop
             /\ foc' = Ret(fr.last)
  /\ ev' = <<RuleEvent(Top)>> /\ err' = err /\ Same

----------------------------------------------------------------------------
(******************** returning to the construct on top *******************)
BackAlt ==
  /\ Top.f = "alt"
  /\ LET fr == Top
         ns == G.nodes[fr.n].ns
     IN IF R.ok \/ fr.i = Len(ns)
        THEN foc' = foc /\ stk' = Pop
        ELSE foc' = Ev(ns[fr.i + 1], fr.p, fr.env) /\ stk' = Swap([fr EXCEPT !.i = @ + 1])
  /\ Quietly

BackOpt ==
  /\ Top.f = "opt"
  /\ foc' = Ret(IF R.ok THEN OkR(R.p, "?" \o R.v) ELSE OkR(Top.p, "?"))
  /\ stk' = Pop /\ Quietly

BackSlice ==
  /\ Top.f = "sl"
  /\ foc' = Ret(IF R.ok THEN OkR(R.p, SliceV(Span(I, Top.p, R.p))) ELSE FailR)
  /\ ev' = IF R.ok THEN <<"S " \o ToString(Top.p) \o " " \o ToString(R.p)>> ELSE <<>>
  /\ stk' = Pop /\ memo' = memo /\ err' = err /\ Same

BackSilent ==
  /\ Top.f \in {"and", "not", "quiet"}
  /\ foc' = Ret(CASE Top.f = "quiet" -> R
                  [] Top.f = "and"   -> IF R.ok THEN OkR(Top.p, R.v) ELSE FailR
                  [] Top.f = "not"   -> IF R.ok THEN FailR ELSE OkR(Top.p, Unit))
  /\ err' = [err EXCEPT !.sup = @ - 1]
  /\ stk' = Pop /\ ev' = <<>> /\ memo' = memo /\ Same

BackRep ==
  /\ Top.f = "rep"
  /\ LET fr == Top IN
     IF ~R.ok THEN foc' = [t |-> "repend"] /\ stk' = stk
     ELSE IF fr.ph = "sep"
     THEN foc' = Ev(G.nodes[fr.n].n, R.p, fr.env) /\ stk' = Swap([fr EXCEPT !.ph = "body"])
     ELSE foc' = [t |-> "loop"] /\ stk' = Swap([fr EXCEPT !.q = R.p, !.cnt = @ + 1, !.acc = Append(@, R.v)])
  /\ Quietly

\* An element of a sequence (or of an operator) matched or failed.
BackSeq ==
  /\ Top.f = "seq"
  /\ LET fr == Top
         e  == fr.es[fr.i]
         nd == G.nodes[e.n]
         env == Bind(IF nd.k = "pat" THEN Bind(fr.env, nd.bind, R.v) ELSE fr.env, e.l, R.v)
     IN IF ~R.ok
        THEN /\ stk' = Pop
             /\ foc' = (CASE fr.kind = "seq"  -> Ret(FailR)
                          [] fr.kind = "pre"  -> [t |-> "pre", i |-> fr.x.i + 1]
                          [] fr.kind = "post" -> [t |-> "post", lv |-> fr.x.lv, i |-> fr.x.i + 1])
        ELSE IF fr.i < Len(fr.es)
        THEN /\ stk' = Swap([fr EXCEPT !.i = @ + 1, !.env = env])
             /\ foc' = Ev(fr.es[fr.i + 1].n, R.p, env)
        ELSE /\ stk' = Swap([fr EXCEPT !.env = env])
             /\ foc' = [t |-> "fin", p |-> R.p]
  /\ Quietly

\* All elements of a sequence matched: run its action.
FinSeq ==
  /\ foc.t = "fin" /\ Top.kind = "seq"
  /\ LET a == G.nodes[Top.x.n].a IN
     CASE a.k = "none" -> foc' = Ret(OkR(foc.p, Unit)) /\ err' = err
       [] a.k = "node" -> foc' = Ret(OkR(foc.p, ActionV(a, Top.env))) /\ err' = err
       [] a.k = "cond" -> IF CondHolds(a, Top.env)
                          THEN foc' = Ret(OkR(foc.p, ActionV(a, Top.env))) /\ err' = err
                          ELSE foc' = Ret(FailR) /\ err' = Marked(err, foc.p, a.msg)
  /\ stk' = Pop /\ ev' = <<>> /\ memo' = memo /\ Same

----------------------------------------------------------------------------
(******************** precedence climbing *********************************)
ClimbF(n, p, env, min) == [f |-> "climb", n |-> n, l |-> p, env |-> env, min |-> min, v |-> "", q |-> p]

EvPrec ==
  /\ Nd.k = "prec"
  /\ stk' = Push(ClimbF(foc.n, foc.p, foc.env, 0))
  /\ foc' = [t |-> "pre", i |-> 1]
  /\ Quietly

\* Try prefix operator or atom i at the start of the operand.
Pre ==
  /\ foc.t = "pre"
  /\ LET fr == Top
         pre == G.nodes[fr.n].pre
     IN IF foc.i > Len(pre)
        THEN foc' = Ret(FailR) /\ stk' = Pop
        ELSE RunSeq(stk, SeqF("pre", pre[foc.i].es, 1, fr.env, [i |-> foc.i]), fr.l)
  /\ Quietly

FinPre ==
  /\ foc.t = "fin" /\ Top.kind = "pre"
  /\ LET fr == Top
         cl == stk[Len(stk) - 1]
         op == G.nodes[cl.n].pre[fr.x.i]
     IN IF op.ki = "atom"
        THEN /\ stk' = Pop
             /\ foc' = [t |-> "oper", r |-> OkR(foc.p, OpValue(I, op, fr.env, cl.l, foc.p))]
        ELSE /\ stk' = Append(Swap([f |-> "preop", i |-> fr.x.i, env |-> fr.env]), ClimbF(cl.n, foc.p, cl.env, op.np))
             /\ foc' = [t |-> "pre", i |-> 1]
  /\ Quietly

\* The operand of a prefix operator has been parsed.
BackPreop ==
  /\ Top.f = "preop"
  /\ LET fr == Top
         cl == stk[Len(stk) - 1]
         op == G.nodes[cl.n].pre[fr.i]
     IN IF ~R.ok
        THEN stk' = Pop /\ foc' = [t |-> "pre", i |-> fr.i + 1]
        ELSE stk' = Pop /\ foc' = [t |-> "oper", r |-> OkR(R.p, OpValue(I, op, Bind(fr.env, op.ra, R.v), cl.l, R.p))]
  /\ Quietly

\* First operand complete: look for operators of level min and above.
Operand ==
  /\ foc.t = "oper"
  /\ stk' = Swap([Top EXCEPT !.v = foc.r.v, !.q = foc.r.p])
  /\ foc' = [t |-> "post", lv |-> 1, i |-> 1]
  /\ ev' = <<"EN " \o ToString(Top.min)>>
  /\ memo' = memo /\ err' = err /\ Same

Post ==
  /\ foc.t = "post"
  /\ LET fr == Top
         lev == G.nodes[fr.n].lev
     IN IF foc.lv > Len(lev)
        THEN /\ foc' = Ret(OkR(fr.q, fr.v)) /\ stk' = Pop
             /\ ev' = <<"LV " \o ToString(fr.min)>>
        ELSE /\ ev' = <<>>
             /\ IF foc.lv - 1 < fr.min \/ foc.i > Len(lev[foc.lv])
                THEN foc' = [t |-> "post", lv |-> foc.lv + 1, i |-> 1] /\ stk' = stk
                ELSE RunSeq(stk, SeqF("post", lev[foc.lv][foc.i].es, 1, fr.env, [lv |-> foc.lv, i |-> foc.i]), fr.q)
  /\ memo' = memo /\ err' = err /\ Same

FinPost ==
  /\ foc.t = "fin" /\ Top.kind = "post"
  /\ LET fr == Top
         cl == stk[Len(stk) - 1]
         op == G.nodes[cl.n].lev[fr.x.lv][fr.x.i]
     IN IF op.ki = "postfix"
        THEN /\ stk' = Append(SubSeq(stk, 1, Len(stk) - 2),
                        [cl EXCEPT !.v = OpValue(I, op, Bind(fr.env, op.la, cl.v), cl.l, foc.p), !.q = foc.p])
             /\ foc' = [t |-> "post", lv |-> 1, i |-> 1]
        ELSE /\ stk' = Append(Swap([f |-> "postop", lv |-> fr.x.lv, i |-> fr.x.i, env |-> fr.env]), ClimbF(cl.n, foc.p, cl.env, op.np))
             /\ foc' = [t |-> "pre", i |-> 1]
  /\ Quietly

\* The right operand of an infix operator has been parsed.
BackPostop ==
  /\ Top.f = "postop"
  /\ LET fr == Top
         cl == stk[Len(stk) - 1]
         op == G.nodes[cl.n].lev[fr.lv][fr.i]
     IN IF ~R.ok
        THEN /\ stk' = Pop /\ foc' = [t |-> "post", lv |-> fr.lv, i |-> fr.i + 1]
        ELSE /\ stk' = Append(SubSeq(stk, 1, Len(stk) - 2),
                        [cl EXCEPT !.v = OpValue(I, op, Bind(Bind(fr.env, op.ra, R.v), op.la, cl.v), cl.l, R.p), !.q = R.p])
             /\ foc' = [t |-> "post", lv |-> 1, i |-> 1]
  /\ Quietly

----------------------------------------------------------------------------
(******************** passes **********************************************)
AtEnd == R.ok /\ (Entry.noeof = 1 \/ R.p = Size(I))

Accept ==
  /\ AtEnd
  /\ foc' = [t |-> "done", o |-> IF err.re THEN [k |-> "P"] ELSE [k |-> "O", v |-> IF Entry.unit = 1 THEN Unit ELSE R.v, p |-> R.p]]
  /\ stk' = stk /\ Quietly

\* First pass failed: keep only the location, and walk again.
SecondPass ==
  /\ ~AtEnd /\ ~err.re
  /\ err' = [(IF R.ok THEN Marked(err, R.p, "EOF") ELSE err) EXCEPT !.re = TRUE, !.sup = 0]
  /\ memo' = Empty /\ evals' = Empty
  /\ foc' = Ev(Entry.n, 0, Env0(G))
  /\ stk' = stk /\ ev' = <<>> /\ k' = k

Reject ==
  /\ ~AtEnd /\ err.re
  /\ LET e == IF R.ok THEN Marked(err, R.p, "EOF") ELSE err IN
     /\ err' = e
     /\ foc' = [t |-> "done", o |-> [k |-> "E", at |-> e.max, toks |-> e.toks]]
  /\ stk' = stk /\ ev' = <<>> /\ memo' = memo /\ Same

NextCase == foc.t = "done" /\ Start(k + 1)

Step ==
  CASE foc.t = "ev" -> \/ EvLit \/ EvPat \/ EvFail \/ EvPos \/ EvCustom \/ EvSeq \/ EvAlt \/ EvOpt \/ EvSlice
                       \/ EvSilent \/ EvRep \/ EvPar \/ EvCallPlain \/ EvCallHit \/ EvCallMiss \/ EvPrec
    [] foc.t = "rt" -> (IF stk = <<>> THEN Accept \/ SecondPass \/ Reject
                        ELSE \/ LeaveRule \/ LeaveMemo \/ GrowMore \/ BackAlt \/ BackOpt \/ BackSlice \/ BackSilent
                             \/ BackRep \/ BackSeq \/ BackPreop \/ BackPostop)
    [] foc.t = "fin" -> FinSeq \/ FinPre \/ FinPost
    [] foc.t = "body" -> EnterBody
    [] foc.t = "loop" -> RepLoop
    [] foc.t = "repend" -> RepEnd
    [] foc.t = "pre" -> Pre
    [] foc.t = "oper" -> Operand
    [] foc.t = "post" -> Post
    [] OTHER -> FALSE

----------------------------------------------------------------------------
(******************** invariants ******************************************)
\* The suppression counter is the number of silencing frames on the stack.
SuppressionBalanced ==
  err.sup = Cardinality({i \in 1..Len(stk) : stk[i].f \in {"and", "not", "quiet"}})

\* Positions always lie inside the input.
PositionsInside ==
  /\ err.max \in 0..Size(I)
  /\ foc.t = "ev" => foc.p \in 0..Size(I)
  /\ foc.t = "rt" /\ foc.r.ok => foc.r.p \in 0..Size(I)

\* A memoised rule is evaluated at most twice at a position in one pass
\* (once where failures are reported, once where they are not).
CachedAtMostTwice ==
  \A x \in DOMAIN evals : G.rules[x[1]].cache = "memo" => evals[x] <= 2

\* Nothing is expected before the second pass.
FirstPassCollectsNothing == ~err.re => err.toks = {}

\* The machine computes what the semantics prescribes.
Agrees ==
  foc.t = "done" =>
    LET s == Parse(G, I, Entry) IN
    CASE foc.o.k = "O" -> s.ok /\ s.v = foc.o.v /\ s.p = foc.o.p
      [] foc.o.k = "E" -> ~s.ok /\ s.at = foc.o.at /\ s.exp = foc.o.toks
      [] OTHER -> FALSE

\* During the second pass the location is fixed.
LocationFixed == err.re /\ k' = k => err'.max = err.max
\* Memo entries of plain memoised rules never change within a pass.
MemoStable == \A x \in DOMAIN memo : (k' = k /\ err'.re = err.re /\ G.rules[x[1]].cache = "memo") => (x \in DOMAIN memo' /\ memo'[x] = memo[x])
=============================================================================
