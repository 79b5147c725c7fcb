-------------------------------- MODULE Peg --------------------------------
(***************************************************************************)
(* Denotational semantics of rust-peg grammars.                            *)
(*                                                                         *)
(* A grammar G is data: a record with                                      *)
(*   nodes : sequence of expression nodes (children are indexes into it)   *)
(*   rules : record  rule name -> [body, params, cache]                    *)
(*   gargs : sequence of [x, v] (grammar-level arguments)                  *)
(* An input I is a record with                                             *)
(*   ch : sequence of element names, w : sequence of their widths          *)
(* Positions are numbers of elements consumed so far (0..Len(ch)).         *)
(*                                                                         *)
(* The result of matching is a record                                      *)
(*   ok : whether the expression matched                                   *)
(*   p  : position after the match (meaningless if ~ok)                    *)
(*   v  : value of the match, a canonical string                           *)
(*   m  : the furthest reportable failures seen on the way (a "mark"):     *)
(*        [p |-> position, t |-> set of tokens that failed there]          *)
(* Everything in this module is a pure function: no caches, no passes, no  *)
(* suppression counters.  PegMachine.tla has those.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoMark == [p |-> 0, t |-> {}]

\* Furthest failures of two walks combined.
Join(a, b) == IF a.p > b.p THEN a ELSE IF b.p > a.p THEN b
              ELSE [p |-> a.p, t |-> a.t \cup b.t]

Mark(p, tok) == [p |-> p, t |-> {tok}]

Ok(p, v, m)  == [ok |-> TRUE, p |-> p, v |-> v, m |-> m]
Fail(m)      == [ok |-> FALSE, p |-> 0, v |-> "", m |-> m]
WithMark(r, m) == [r EXCEPT !.m = Join(m, r.m)]

(***************************** Canonical values ****************************)
Unit == "()"
\* Strings joined, by halves (the depth of evaluation matters to TLC).
RECURSIVE JoinRange(_, _, _, _)
JoinRange(s, i, j, sep) == IF i > j THEN ""
                           ELSE IF i = j THEN s[i]
                           ELSE LET h == (i + j) \div 2 IN JoinRange(s, i, h, sep) \o sep \o JoinRange(s, h + 1, j, sep)
JoinAll(s, sep) == JoinRange(s, 1, Len(s), sep)
ListV(s)      == "[" \o JoinAll(s, ",") \o "]"
NodeV(t, s)   == t \o "(" \o JoinAll(s, ",") \o ")"
CharV(c)      == "'" \o c
SliceV(s)     == "{" \o JoinAll(s, " ") \o "}"
PosV(n)       == "@" \o ToString(n)

\* Numeric reading of a value used as a repetition bound.
NumTable == [s \in {"#0","#1","#2","#3","#4","#5","#6","'0","'1","'2","'3","'4","#255","#256","#257","#300"} |->
              CASE s = "#255" -> 255 [] s = "#256" -> 256 [] s = "#257" -> 257 [] s = "#300" -> 300 [] s \in {"#0","'0"} -> 0 [] s \in {"#1","'1"} -> 1 [] s \in {"#2","'2"} -> 2
                [] s \in {"#3","'3"} -> 3 [] s \in {"#4","'4"} -> 4 [] s = "#5" -> 5 [] OTHER -> 6]

(***************************** Inputs **************************************)
RECURSIVE SumRange(_, _, _)
SumRange(w, i, j) == IF i > j THEN 0 ELSE IF i = j THEN w[i] ELSE LET h == (i + j) \div 2 IN SumRange(w, i, h) + SumRange(w, h + 1, j)
SumTo(w, n) == SumRange(w, 1, n)
\* An input: I.pad elements "x" (written as a number, there can be very many of them), then I.ch.
\* Positions count elements from 0; the recorded ones are Off(I, p).
Off(I, p) == IF I.u = 1 THEN p * I.w[1] + I.o ELSE IF p <= I.pad THEN p + I.o ELSE SumTo(I.w, p - I.pad) + I.pad + I.o
Size(I) == I.pad + Len(I.ch)
ElemAt(I, p) == IF p < I.pad THEN "x" ELSE I.ch[p - I.pad + 1]
Span(I, p, q) == IF p >= I.pad THEN SubSeq(I.ch, p - I.pad + 1, q - I.pad) ELSE [i \in 1..(q - p) |-> ElemAt(I, p + i - 1)]

\* Line and column of a position: both 1-based, columns count characters.
Line(I, p) == 1 + Cardinality({i \in 1..(p - I.pad) : I.ch[i] = "U+A"})
ColFrom(I, p) == LET nl == {i \in 1..(p - I.pad) : I.ch[i] = "U+A"}
                 IN IF nl = {} THEN p + 1 ELSE p - I.pad + 1 - (CHOOSE i \in nl : \A j \in nl : j <= i)

(***************************** Environments ********************************)
\* v : name -> value string;  o : name -> closure or string constant
Env0(G) == [v |-> [x \in {G.gargs[i].x : i \in 1..Len(G.gargs)} |->
                    G.gargs[CHOOSE i \in 1..Len(G.gargs) : G.gargs[i].x = x].v],
            o |-> [x \in {} |-> 0]]
Bind(env, x, val) == IF x = "" THEN env ELSE [env EXCEPT !.v = (x :> val) @@ @]

ActionV(a, env) == NodeV(a.t, [i \in 1..Len(a.args) |-> env.v[a.args[i]]])

CondHolds(a, env) ==
  CASE a.op = "eq"  -> env.v[a.x] = a.v
    [] a.op = "ne"  -> env.v[a.x] # a.v
    [] a.op = "no"  -> FALSE
    [] a.op = "yes" -> TRUE
    [] a.op = "same" -> env.v[a.x] = env.v[a.y]

BoundOf(b, env, dflt) == CASE b.k = "none" -> dflt
                           [] b.k = "int"  -> b.i
                           [] b.k = "var"  -> NumTable[env.v[b.x]]
Unbounded == -1

HasLit(I, p, s) == p + Len(s) <= Size(I) /\ Span(I, p, p + Len(s)) = s

InSet(node, c) == node.any = 1 \/ \E i \in 1..Len(node.set) : node.set[i] = c

(***************************** Matching ************************************)
RECURSIVE Match(_, _, _, _, _, _)
RECURSIVE MatchSeq(_, _, _, _, _, _, _, _)
RECURSIVE MatchAlt(_, _, _, _, _, _, _, _)
RECURSIVE RepRun(_, _, _, _, _, _, _, _)
RECURSIVE RepAll(_, _, _, _, _, _, _, _)
RECURSIVE GrowRun(_, _, _, _, _, _, _, _)
RECURSIVE GrowAll(_, _, _, _, _, _, _, _)
RECURSIVE Climb(_, _, _, _, _, _, _)
RECURSIVE TryPre(_, _, _, _, _, _, _, _)
RECURSIVE LoopRun(_, _, _, _, _, _, _, _)
RECURSIVE LoopAll(_, _, _, _, _, _, _, _)
RECURSIVE TryPost(_, _, _, _, _, _, _, _, _, _)

\* Elements i.. of a sequence starting at p; the result's env is needed by the
\* action, so a successful MatchSeq returns it as an extra field.
MatchSeq(G, I, es, i, p, env, m, sd) ==
  IF i > Len(es) THEN [ok |-> TRUE, p |-> p, env |-> env, m |-> m]
  ELSE LET nd == G.nodes[es[i].n]
           r  == Match(G, I, es[i].n, p, env, sd)
           m2 == Join(m, r.m)
       IN IF ~r.ok THEN [ok |-> FALSE, m |-> m2]
          ELSE MatchSeq(G, I, es, i + 1, r.p,
                 \* a pattern that is an element of the sequence may also bind a variable
                 Bind(IF nd.k = "pat" THEN Bind(env, nd.bind, r.v) ELSE env, es[i].l, r.v), m2, sd)

MatchAlt(G, I, ns, i, p, env, m, sd) ==
  LET r == Match(G, I, ns[i], p, env, sd) IN
  IF r.ok \/ i = Len(ns) THEN WithMark(r, m)
  ELSE MatchAlt(G, I, ns, i + 1, p, env, Join(m, r.m), sd)

\* Loops (repetition, growing, operators) are iterations of a step on a state with a field
\* done.  XRun(.., k, st) makes up to 2^k steps and XAll keeps doubling: evaluated this way the
\* depth of the recursion stays logarithmic in the number of steps.

\* Greedy repetition: cnt elements matched so far, ending at p.
RepStep(G, I, nd, env, max, sd, st) ==
  IF max # Unbounded /\ st.cnt >= max THEN [st EXCEPT !.done = TRUE]
  ELSE LET s == IF nd.sep = 0 \/ st.cnt = 0 THEN Ok(st.p, Unit, NoMark)
                ELSE Match(G, I, nd.sep, st.p, env, sd)
           m1 == Join(st.m, s.m)
       IN IF ~s.ok THEN [st EXCEPT !.done = TRUE, !.m = m1]
          ELSE LET r  == Match(G, I, nd.n, s.p, env, sd)
                   m2 == Join(m1, r.m)
               IN IF ~r.ok THEN [st EXCEPT !.done = TRUE, !.m = m2]
                  ELSE [done |-> FALSE, p |-> r.p, cnt |-> st.cnt + 1, acc |-> Append(st.acc, r.v), m |-> m2]
RepRun(G, I, nd, env, max, sd, k, st) ==
  IF k = 0 THEN RepStep(G, I, nd, env, max, sd, st)
  ELSE LET h == RepRun(G, I, nd, env, max, sd, k - 1, st)
       IN IF h.done THEN h ELSE RepRun(G, I, nd, env, max, sd, k - 1, h)
RepAll(G, I, nd, env, max, sd, k, st) ==
  LET h == RepRun(G, I, nd, env, max, sd, k, st)
  IN IF h.done THEN h ELSE RepAll(G, I, nd, env, max, sd, k + 1, h)
MatchRep(G, I, nd, p, env, max, sd) ==
  RepAll(G, I, nd, env, max, sd, 0, [done |-> FALSE, p |-> p, cnt |-> 0, acc |-> <<>>, m |-> NoMark])

\* Left recursion: re-evaluate the body with the recursive call answered by the
\* previous result (st.r), as long as the match gets longer.
GrowStep(G, I, r, p, env, sd, st) ==
  LET x == Match(G, I, G.rules[r].body, p, env, (<<r, p>> :> st.r) @@ sd)
      m2 == Join(st.m, x.m)
  IN IF ~x.ok \/ (st.r.ok /\ x.p <= st.r.p) THEN [done |-> TRUE, r |-> st.r, m |-> m2]
     ELSE [done |-> FALSE, r |-> Ok(x.p, x.v, NoMark), m |-> m2]
GrowRun(G, I, r, p, env, sd, k, st) ==
  IF k = 0 THEN GrowStep(G, I, r, p, env, sd, st)
  ELSE LET h == GrowRun(G, I, r, p, env, sd, k - 1, st)
       IN IF h.done THEN h ELSE GrowRun(G, I, r, p, env, sd, k - 1, h)
GrowAll(G, I, r, p, env, sd, k, st) ==
  LET h == GrowRun(G, I, r, p, env, sd, k, st)
  IN IF h.done THEN h ELSE GrowAll(G, I, r, p, env, sd, k + 1, h)
Grow(G, I, r, p, env, sd) ==
  LET h == GrowAll(G, I, r, p, env, sd, 0, [done |-> FALSE, r |-> Fail(NoMark), m |-> NoMark])
  IN WithMark(h.r, h.m)

\* Precedence climbing.  lpos: where the operand/expression started.
OpValue(I, op, env, l, q) ==
  LET v == ActionV(op, env)
  IN IF op.w = "" THEN v ELSE NodeV(op.w, <<PosV(Off(I, l)), v, PosV(Off(I, q))>>)

TryPre(G, I, nd, i, p, env, m, sd) ==
  IF i > Len(nd.pre) THEN Fail(m)
  ELSE LET op == nd.pre[i]
           s  == MatchSeq(G, I, op.es, 1, p, env, m, sd)
       IN IF ~s.ok THEN TryPre(G, I, nd, i + 1, p, env, s.m, sd)
          ELSE IF op.ki = "atom" THEN Ok(s.p, OpValue(I, op, s.env, p, s.p), s.m)
          ELSE LET r == Climb(G, I, nd, s.p, env, op.np, sd)
                   m2 == Join(s.m, r.m)
               IN IF ~r.ok THEN TryPre(G, I, nd, i + 1, p, env, m2, sd)
                  ELSE Ok(r.p, OpValue(I, op, Bind(s.env, op.ra, r.v), p, r.p), m2)

\* Operators i.. of level lv (then of the later levels) applied to operand val.
TryPost(G, I, nd, lv, i, q, st, env, min, sd) ==
  IF lv > Len(nd.lev) THEN [ok |-> FALSE, m |-> st.m]
  ELSE IF lv - 1 < min \/ i > Len(nd.lev[lv])
       THEN TryPost(G, I, nd, lv + 1, 1, q, st, env, min, sd)
  ELSE LET op == nd.lev[lv][i]
           s  == MatchSeq(G, I, op.es, 1, q, env, st.m, sd)
       IN IF ~s.ok THEN TryPost(G, I, nd, lv, i + 1, q, [st EXCEPT !.m = s.m], env, min, sd)
          ELSE IF op.ki = "postfix"
          THEN Ok(s.p, OpValue(I, op, Bind(s.env, op.la, st.v), st.l, s.p), s.m)
          ELSE LET r == Climb(G, I, nd, s.p, env, op.np, sd)
                   m2 == Join(s.m, r.m)
               IN IF ~r.ok THEN TryPost(G, I, nd, lv, i + 1, q, [st EXCEPT !.m = m2], env, min, sd)
                  ELSE Ok(r.p, OpValue(I, op, Bind(Bind(s.env, op.ra, r.v), op.la, st.v), st.l, r.p), m2)

LoopStep(G, I, nd, env, min, sd, st) ==
  LET r == TryPost(G, I, nd, 1, 1, st.p, st, env, min, sd)
  IN IF ~r.ok THEN [st EXCEPT !.done = TRUE, !.m = r.m]
     ELSE [st EXCEPT !.p = r.p, !.v = r.v, !.m = r.m]
LoopRun(G, I, nd, env, min, sd, k, st) ==
  IF k = 0 THEN LoopStep(G, I, nd, env, min, sd, st)
  ELSE LET h == LoopRun(G, I, nd, env, min, sd, k - 1, st)
       IN IF h.done THEN h ELSE LoopRun(G, I, nd, env, min, sd, k - 1, h)
LoopAll(G, I, nd, env, min, sd, k, st) ==
  LET h == LoopRun(G, I, nd, env, min, sd, k, st)
  IN IF h.done THEN h ELSE LoopAll(G, I, nd, env, min, sd, k + 1, h)

\* l: where the expression started, p: where it ends so far.
Climb(G, I, nd, p, env, min, sd) ==
  LET r == TryPre(G, I, nd, 1, p, env, NoMark, sd)
  IN IF ~r.ok THEN r
     ELSE LET h == LoopAll(G, I, nd, env, min, sd, 0, [done |-> FALSE, p |-> r.p, v |-> r.v, l |-> p, m |-> r.m])
          IN Ok(h.p, h.v, h.m)

\* Environment of a called rule: its parameters only (plus the grammar arguments).
CallEnv(G, nd, env) ==
  LET ru == G.rules[nd.r]
      N  == Len(nd.args)
      vs == {i \in 1..N : nd.args[i].k \in {"v", "x"}}
      os == {i \in 1..N : nd.args[i].k \in {"e", "s", "y"}}
      ix(x) == CHOOSE i \in 1..N : ru.params[i] = x
      e0 == Env0(G)
  IN IF N = 0 THEN e0 ELSE
     [v |-> [x \in {ru.params[i] : i \in vs} |->
               IF nd.args[ix(x)].k = "v" THEN nd.args[ix(x)].v ELSE env.v[nd.args[ix(x)].x]] @@ e0.v,
      o |-> [x \in {ru.params[i] : i \in os} |->
               LET a == nd.args[ix(x)] IN
               CASE a.k = "e" -> [n |-> a.n, env |-> env]
                 [] a.k = "s" -> [s |-> a.s, tok |-> a.tok]
                 [] a.k = "y" -> env.o[a.x]]]

Match(G, I, n, p, env, sd) ==
  LET nd == G.nodes[n] IN
  CASE nd.k = "lit" ->
         IF HasLit(I, p, nd.s) THEN Ok(p + Len(nd.s), Unit, NoMark) ELSE Fail(Mark(p, nd.tok))
    [] nd.k = "pat" ->
         IF p < Size(I) /\ (InSet(nd, ElemAt(I, p)) # (nd.inv = 1))
         THEN Ok(p + 1, CharV(ElemAt(I, p)), NoMark) ELSE Fail(Mark(p, nd.tok))
    [] nd.k = "seq" ->
         LET s == MatchSeq(G, I, nd.es, 1, p, env, NoMark, sd) IN
         IF ~s.ok THEN Fail(s.m)
         ELSE (CASE nd.a.k = "none" -> Ok(s.p, Unit, s.m)
                [] nd.a.k = "node" -> Ok(s.p, ActionV(nd.a, s.env), s.m)
                [] nd.a.k = "cond" -> IF CondHolds(nd.a, s.env)
                                      THEN Ok(s.p, ActionV(nd.a, s.env), s.m)
                                      ELSE Fail(Join(s.m, Mark(s.p, nd.a.msg))))
    [] nd.k = "alt" -> MatchAlt(G, I, nd.ns, 1, p, env, NoMark, sd)
    [] nd.k = "call" ->
         LET ru == G.rules[nd.r]
             e2 == CallEnv(G, nd, env)
         IN IF ru.cache = "lr"
            THEN IF <<nd.r, p>> \in DOMAIN sd THEN sd[<<nd.r, p>>]
                 ELSE Grow(G, I, nd.r, p, e2, sd)
            ELSE LET r == Match(G, I, ru.body, p, e2, sd) IN r
    [] nd.k = "par" -> LET c == env.o[nd.x] IN Match(G, I, c.n, p, c.env, sd)
    [] nd.k = "opt" ->
         LET r == Match(G, I, nd.n, p, env, sd) IN
         IF r.ok THEN Ok(r.p, "?" \o r.v, r.m) ELSE Ok(p, "?", r.m)
    [] nd.k = "rep" ->
         LET r == MatchRep(G, I, nd, p, env, BoundOf(nd.max, env, Unbounded), sd)
         IN IF r.cnt >= BoundOf(nd.min, env, 0) THEN Ok(r.p, ListV(r.acc), r.m) ELSE Fail(r.m)
    [] nd.k = "and" ->
         LET r == Match(G, I, nd.n, p, env, sd) IN
         IF r.ok THEN Ok(p, r.v, NoMark) ELSE Fail(NoMark)
    [] nd.k = "not" ->
         LET r == Match(G, I, nd.n, p, env, sd) IN
         IF r.ok THEN Fail(NoMark) ELSE Ok(p, Unit, NoMark)
    [] nd.k = "sl" ->
         LET r == Match(G, I, nd.n, p, env, sd) IN
         IF r.ok THEN Ok(r.p, SliceV(Span(I, p, r.p)), r.m) ELSE r
    [] nd.k = "quiet" ->
         LET r == Match(G, I, nd.n, p, env, sd) IN [r EXCEPT !.m = NoMark]
    [] nd.k = "pos" -> Ok(p, PosV(Off(I, p)), NoMark)
    [] nd.k = "fail" -> Fail(Mark(p, nd.tok))
    [] nd.k = "failx" -> Fail(Mark(p, env.o[nd.x].tok))
    [] nd.k = "prec" -> Climb(G, I, nd, p, env, 0, sd)
    [] nd.k = "cus" ->      \* custom closures and methods: take i elements / never / rest / back / at end
        (CASE nd.c = "take"  -> IF p + nd.i <= Size(I)
                                THEN Ok(p + nd.i, NodeV("tk", <<SliceV(Span(I, p, p + nd.i))>>), NoMark)
                                ELSE Fail(NoMark)
           [] nd.c = "never" -> Fail(NoMark)
           [] nd.c = "rest"  -> Ok(Size(I), NodeV("rs", <<PosV(Off(I, p))>>), NoMark)
           [] nd.c = "here"  -> Ok(p, NodeV("hr", <<PosV(Off(I, p)), SliceV(Span(I, 0, Size(I)))>>), NoMark)
           [] nd.c = "back"  -> LET q == IF p < nd.i THEN 0 ELSE p - nd.i IN Ok(q, NodeV("bk", <<SliceV(Span(I, q, p))>>), NoMark)
           [] nd.c = "tick"  -> Ok(p, Unit, NoMark)
           [] nd.c = "skip"  -> IF p + nd.i <= Size(I) THEN Ok(p + nd.i, Unit, NoMark) ELSE Fail(NoMark)
           [] nd.c = "end"   -> IF p = Size(I) THEN Ok(p, NodeV("en", <<>>), NoMark) ELSE Fail(NoMark))
    [] nd.k = "met" -> IF HasLit(I, p, nd.s) THEN Ok(p + Len(nd.s), Unit, NoMark) ELSE Fail(NoMark)
    [] nd.k = "metx" -> LET lt == env.o[nd.x].s IN
                        IF HasLit(I, p, lt) THEN Ok(p + Len(lt), Unit, NoMark) ELSE Fail(NoMark)

NoSeeds == [x \in {} |-> 0]

(***************************** Parse of a whole input **********************)
\* c : entry = [n : a call node, noeof : 0/1, unit : 1 if the rule returns no value]
Parse(G, I, c) ==
  LET r == Match(G, I, c.n, 0, Env0(G), NoSeeds)
  IN IF r.ok /\ (c.noeof = 1 \/ r.p = Size(I))
     THEN [ok |-> TRUE, v |-> IF c.unit = 1 THEN Unit ELSE r.v, p |-> r.p]
     ELSE LET m == IF r.ok THEN Join(r.m, Mark(r.p, "EOF")) ELSE r.m
          IN [ok |-> FALSE, at |-> m.p, exp |-> m.t, short |-> r.ok, stop |-> r.p]
=============================================================================
