-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Theorems about the denotation (Peg.tla), checked by TLC on every        *)
(* expression of a small enumerated language, every input over {x, y} up   *)
(* to a length and every starting position.  They are the equations a user *)
(* of PEGs calculates with: if Peg.tla said something else than they do,   *)
(* the comparisons of the implementation with it would prove little.       *)
(* Nothing here comes from an implementation.                              *)
(*                                                                         *)
(* Expressions are trees here; Flat lays a tree out as the nodes of a      *)
(* grammar.  A case of a law is a pair of trees; what must agree is        *)
(* success, end and furthest failures (Same), and where it makes sense the *)
(* value (SameV).                                                          *)
(***************************************************************************)
EXTENDS Peg

CONSTANTS MaxLen, Wide     \* longest input; 1: larger enumeration

(***************************** trees ***************************************)
Lit(s)     == [k |-> "lit", s |-> s, tok |-> "\"" \o JoinAll(s, "") \o "\"", ch |-> <<>>]
AnyElem        == [k |-> "pat", any |-> 1, set |-> <<>>, inv |-> 0, bind |-> "", tok |-> "[_]", ch |-> <<>>]
Not(a)     == [k |-> "not", ch |-> <<a>>]
And(a)     == [k |-> "and", ch |-> <<a>>]
Opt(a)     == [k |-> "opt", ch |-> <<a>>]
Quiet(a)   == [k |-> "quiet", ch |-> <<a>>]
Slice(a)   == [k |-> "sl", ch |-> <<a>>]
Seq2(a, b) == [k |-> "seq", ch |-> <<a, b>>, lab |-> <<"", "">>, a |-> [k |-> "none"]]
Nothing    == [k |-> "seq", ch |-> <<>>, lab |-> <<>>, a |-> [k |-> "none"]]
Alt2(a, b) == [k |-> "alt", ch |-> <<a, b>>]
Alt3(a, b, c) == [k |-> "alt", ch |-> <<a, b, c>>]
Act(a, b, t) == [k |-> "seq", ch |-> <<a, b>>, lab |-> <<"a", "b">>, a |-> [k |-> "node", t |-> t, args |-> <<"a", "b">>]]
Bnd(i)     == IF i < 0 THEN [k |-> "none"] ELSE [k |-> "int", i |-> i]
Rep(a, lo, hi) == [k |-> "rep", ch |-> <<a>>, min |-> Bnd(lo), max |-> Bnd(hi)]
SepBy(a, s, lo, hi) == [k |-> "rep", ch |-> <<a, s>>, min |-> Bnd(lo), max |-> Bnd(hi)]
Ref(r)     == [k |-> "call", r |-> r, ch |-> <<>>]
Never      == [k |-> "fail", tok |-> "never", ch |-> <<>>]

(***************************** trees as nodes ******************************)
\* The nodes of tree t appended to ns; the root is the last one.
RECURSIVE Flat(_, _)
RECURSIVE FlatAll(_, _, _, _)
FlatAll(ts, i, ns, ix) == IF i > Len(ts) THEN [ns |-> ns, ix |-> ix]
                          ELSE LET f == Flat(ts[i], ns) IN FlatAll(ts, i + 1, f, Append(ix, Len(f)))
Node(t, ix) ==
  CASE t.k \in {"not", "and", "opt", "quiet", "sl"} -> [k |-> t.k, n |-> ix[1]]
    [] t.k = "seq" -> [k |-> "seq", es |-> [i \in 1..Len(ix) |-> [n |-> ix[i], l |-> t.lab[i]]], a |-> t.a]
    [] t.k = "alt" -> [k |-> "alt", ns |-> ix]
    [] t.k = "rep" -> [k |-> "rep", n |-> ix[1], sep |-> IF Len(ix) = 2 THEN ix[2] ELSE 0, min |-> t.min, max |-> t.max]
    [] t.k = "call" -> [k |-> "call", r |-> t.r, args |-> <<>>]
    [] t.k = "prec" -> [k |-> "prec", pre |-> [i \in 1..Len(t.pre) |-> [t.pre[i] EXCEPT !.es = [j \in 1..Len(@) |-> [n |-> ix[@[j]], l |-> ""]]]],
                        lev |-> [v \in 1..Len(t.lev) |-> [i \in 1..Len(t.lev[v]) |-> [t.lev[v][i] EXCEPT !.es = [j \in 1..Len(@) |-> [n |-> ix[@[j]], l |-> ""]]]]]]
    [] OTHER -> t
Flat(t, ns) == LET f == FlatAll(t.ch, 1, ns, <<>>) IN Append(f.ns, Node(t, f.ix))

\* A grammar of rules (name -> [body tree, cache]) and one more expression, its last node.
RECURSIVE Lay(_, _, _, _)
Lay(names, rules, ns, acc) ==
  IF names = {} THEN [nodes |-> ns, rules |-> acc]
  ELSE LET r == CHOOSE x \in names : TRUE
           f == Flat(rules[r].body, ns)
       IN Lay(names \ {r}, rules, f, (r :> [body |-> Len(f), params |-> <<>>, cache |-> rules[r].cache]) @@ acc)
NoRules == [x \in {} |-> 0]
Gram(rules, t) == LET g == Lay(DOMAIN rules, rules, <<>>, NoRules)
                      ns == Flat(t, g.nodes)
                  IN [nodes |-> ns, rules |-> g.rules, gargs |-> <<>>]

In(s) == [pad |-> 0, ch |-> s, w |-> [i \in 1..Len(s) |-> 1], u |-> 1, o |-> 0]
In1(s) == [In(s) EXCEPT !.w = [i \in 1..(Len(s) + 1) |-> 1]]
RunIn(rules, t, s, p) == LET G == Gram(rules, t) IN Match(G, In1(s), Len(G.nodes), p, Env0(G), NoSeeds)
Run(t, s, p) == RunIn(NoRules, t, s, p)

Words == UNION {[1..n -> {"x", "y"}] : n \in 0..MaxLen}
Same(r, q) == r.ok = q.ok /\ (r.ok => r.p = q.p) /\ r.m = q.m
SameV(r, q) == Same(r, q) /\ (r.ok => r.v = q.v)
\* on all inputs, from all positions
All(P(_, _)) == \A s \in Words : \A p \in 0..Len(s) : P(s, p)
Equal(t, u) == LET P(s, p) == Same(Run(t, s, p), Run(u, s, p)) IN All(P)
EqualV(t, u) == LET P(s, p) == SameV(Run(t, s, p), Run(u, s, p)) IN All(P)

(***************************** the expressions *****************************)
X == Lit(<<"x">>)
Y == Lit(<<"y">>)
Leaves == {X, Y, Lit(<<"x", "y">>), AnyElem, Nothing, Never}
Consuming == {X, Y, AnyElem}            \* (as bodies of loops)
One(S) == {Opt(a) : a \in S} \cup {Not(a) : a \in S} \cup {And(a) : a \in S} \cup {Quiet(a) : a \in S} \cup {Slice(a) : a \in S}
Two(S, T) == {Seq2(a, b) : a \in S, b \in T} \cup {Alt2(a, b) : a \in S, b \in T}
Loops == {Rep(a, lo, hi) : a \in Consuming \cup {Seq2(X, Y), Alt2(Seq2(X, Y), X)}, lo \in {-1, 1, 2}, hi \in {-1, 2}}
Small == Leaves \cup One({X, Seq2(X, Y), Alt2(X, Y)}) \cup Loops
Exprs == IF Wide = 0 THEN Small \cup Two({X, AnyElem, Lit(<<"x", "y">>)}, {X, Y, Never})
         ELSE Small \cup Two(Leaves, Leaves) \cup One(Two({X, AnyElem, Nothing}, {X, Y}))
Few == {X, Y, Lit(<<"x", "y">>), Nothing, Never, Opt(X), Not(X), And(Y), Quiet(Y), Rep(X, -1, -1), Seq2(X, Y), Alt2(Seq2(X, Y), X)}
Eaters == Consuming \cup {Lit(<<"x", "y">>), Alt2(Seq2(X, Y), X), Seq2(X, Opt(Y)), Quiet(X), Seq2(And(AnyElem), X)}

(***************************** laws ****************************************)
Unary == {"and-is-not-not", "optional-is-choice-with-nothing", "quiet-is-silent", "slice-is-transparent", "lookaheads-are-silent",
          "nothing-is-neutral", "choice-is-idempotent", "calling-is-inlining", "caching-is-unobservable", "matching-looks-only-ahead",
          "failing-first-is-noticed-only-in-the-failures", "results-are-inside"}
Binary == {"failing-elements-end-sequences", "success-ends-choices", "not-guards", "and-guards"}
Ternary == {"sequences-associate", "choices-associate", "prefixes-factor-out"}
LoopLaws == {"plus-is-one-and-star", "star-unfolds", "bounds-count-down", "zero-is-nothing", "exactly-is-both", "values-are-lists"}
SepLaws == {"separated-is-head-and-tail", "separated-plus-is-head-and-tail", "separated-bounds-count-down", "empty-separator-is-none"}
GrowLaws == {"left-recursion-is-a-fold"}
PrecLaws == {"one-left-level-is-a-left-fold", "one-right-level-is-a-right-fold", "levels-are-layers", "prefix-and-postfix"}

U(law, a) ==
  CASE law = "and-is-not-not" -> Equal(And(a), Not(Not(a)))
    [] law = "optional-is-choice-with-nothing" -> Equal(Opt(a), Alt2(a, Nothing))
    [] law = "quiet-is-silent" -> LET P(s, p) == LET q == Run(Quiet(a), s, p) r == Run(a, s, p)
                                                IN q.m = NoMark /\ q.ok = r.ok /\ (q.ok => q.p = r.p /\ q.v = r.v) IN All(P)
    [] law = "slice-is-transparent" -> LET P(s, p) == LET q == Run(Slice(a), s, p) r == Run(a, s, p)
                                                     IN Same(q, r) /\ (q.ok => q.v = SliceV(SubSeq(s, p + 1, q.p))) IN All(P)
    [] law = "lookaheads-are-silent" -> LET P(s, p) == LET r == Run(a, s, p) q == Run(And(a), s, p) n == Run(Not(a), s, p)
                                                      IN /\ q.m = NoMark /\ n.m = NoMark /\ q.ok = r.ok /\ n.ok = ~r.ok
                                                         /\ (q.ok => q.p = p /\ q.v = r.v) /\ (n.ok => n.p = p) IN All(P)
    [] law = "nothing-is-neutral" -> Equal(Seq2(Nothing, a), a) /\ Equal(Seq2(a, Nothing), a)
    [] law = "choice-is-idempotent" -> EqualV(Alt2(a, a), a)
    [] law = "calling-is-inlining" -> LET P(s, p) == SameV(RunIn("r" :> [body |-> a, cache |-> "none"], Ref("r"), s, p), Run(a, s, p)) IN All(P)
    [] law = "caching-is-unobservable" -> LET P(s, p) == SameV(RunIn("r" :> [body |-> a, cache |-> "lr"], Ref("r"), s, p), Run(a, s, p)) IN All(P)
    [] law = "matching-looks-only-ahead" ->
         LET P(s, p) == LET r == Run(a, s, p) q == Run(a, SubSeq(s, p + 1, Len(s)), 0)
                        IN /\ r.ok = q.ok /\ (r.ok => r.p = q.p + p /\ r.v = q.v)
                           /\ r.m.t = q.m.t /\ (r.m.t # {} => r.m.p = q.m.p + p) IN All(P)
    [] law = "failing-first-is-noticed-only-in-the-failures" ->
         LET P(s, p) == LET q == Run(Alt2(Never, a), s, p) r == Run(a, s, p)
                        IN q.ok = r.ok /\ (q.ok => q.p = r.p /\ q.v = r.v) /\ q.m = Join(r.m, Mark(p, "never")) IN All(P)
    [] law = "results-are-inside" -> LET P(s, p) == LET r == Run(a, s, p)
                                                   IN (r.ok => r.p >= p /\ r.p <= Len(s)) /\ (r.m.t # {} => r.m.p >= p /\ r.m.p <= Len(s)) IN All(P)

B(law, a, b) ==
  CASE law = "failing-elements-end-sequences" ->
         LET P(s, p) == LET q == Run(Seq2(a, b), s, p) r == Run(a, s, p) IN
                        IF ~r.ok THEN ~q.ok /\ q.m = r.m ELSE LET t == Run(b, s, r.p) IN q.ok = t.ok /\ (q.ok => q.p = t.p) /\ q.m = Join(r.m, t.m) IN All(P)
    [] law = "success-ends-choices" ->
         LET P(s, p) == LET q == Run(Alt2(a, b), s, p) r == Run(a, s, p) IN
                        IF r.ok THEN SameV(q, r) ELSE LET t == Run(b, s, p) IN q.ok = t.ok /\ (q.ok => q.p = t.p /\ q.v = t.v) /\ q.m = Join(r.m, t.m) IN All(P)
    [] law = "not-guards" -> LET P(s, p) == LET q == Run(Seq2(Not(a), b), s, p) IN
                                           IF Run(a, s, p).ok THEN ~q.ok /\ q.m = NoMark ELSE Same(q, Run(b, s, p)) IN All(P)
    [] law = "and-guards" -> LET P(s, p) == LET q == Run(Seq2(And(a), b), s, p) IN
                                           IF ~Run(a, s, p).ok THEN ~q.ok /\ q.m = NoMark ELSE Same(q, Run(b, s, p)) IN All(P)

T(law, a, b, c) ==
  CASE law = "sequences-associate" -> Equal(Seq2(a, Seq2(b, c)), Seq2(Seq2(a, b), c))
    [] law = "choices-associate" -> EqualV(Alt2(a, Alt2(b, c)), Alt2(Alt2(a, b), c)) /\ EqualV(Alt3(a, b, c), Alt2(a, Alt2(b, c)))
    [] law = "prefixes-factor-out" -> Equal(Alt2(Seq2(a, b), Seq2(a, c)), Seq2(a, Alt2(b, c)))

\* The values of the matches of a one after the other from p on.
RECURSIVE Vals(_, _, _)
Vals(a, s, p) == LET r == Run(a, s, p) IN IF ~r.ok THEN <<>> ELSE <<r.v>> \o Vals(a, s, r.p)

L(law, a) ==
  CASE law = "plus-is-one-and-star" -> Equal(Rep(a, 1, -1), Seq2(a, Rep(a, -1, -1)))
    [] law = "star-unfolds" -> Equal(Rep(a, -1, -1), Opt(Seq2(a, Rep(a, -1, -1))))
    [] law = "bounds-count-down" -> \A lo \in 1..3 : \A hi \in {-1} \cup 1..3 : (hi = -1 \/ lo <= hi) => Equal(Rep(a, lo, hi), Seq2(a, Rep(a, lo - 1, IF hi = -1 THEN -1 ELSE hi - 1)))
    [] law = "zero-is-nothing" -> Equal(Rep(a, 0, 0), Nothing) /\ Equal(Rep(a, -1, 0), Nothing) /\ EqualV(Rep(a, 0, -1), Rep(a, -1, -1))
    [] law = "exactly-is-both" -> \A n \in 1..3 : Equal(Rep(a, n, n), IF n = 1 THEN a ELSE IF n = 2 THEN Seq2(a, a) ELSE Seq2(a, Seq2(a, a)))
    [] law = "values-are-lists" -> LET P(s, p) == LET r == Run(Rep(a, -1, -1), s, p) IN r.v = ListV(Vals(a, s, p)) IN All(P)

S(law, a, b) ==
  CASE law = "separated-is-head-and-tail" -> Equal(SepBy(a, b, -1, -1), Opt(Seq2(a, Rep(Seq2(b, a), -1, -1))))
    [] law = "separated-plus-is-head-and-tail" -> Equal(SepBy(a, b, 1, -1), Seq2(a, Rep(Seq2(b, a), -1, -1)))
    [] law = "separated-bounds-count-down" -> \A lo \in 1..2 : \A hi \in {-1} \cup lo..3 : Equal(SepBy(a, b, lo, hi), Seq2(a, Rep(Seq2(b, a), lo - 1, IF hi = -1 THEN -1 ELSE hi - 1)))
    [] law = "empty-separator-is-none" -> EqualV(SepBy(a, Nothing, -1, -1), Rep(a, -1, -1))

\* Left recursion: r = r a / b is b followed by as many a as there are, folded to the left.
Folded(b, a, s, p) ==
  LET RECURSIVE Go(_, _)
      Go(v, q) == LET r == Run(a, s, q) IN IF ~r.ok \/ r.p = q THEN [v |-> v, p |-> q] ELSE Go(NodeV("n", <<v, r.v>>), r.p)
      h == Run(b, s, p)
  IN Go(h.v, h.p)
Growing(b, a) == "r" :> [body |-> Alt2([Act(Ref("r"), a, "n") EXCEPT !.lab = <<"a", "b">>], b), cache |-> "lr"]
R(law, b, a) ==
  LET P(s, p) == LET g == RunIn(Growing(b, a), Ref("r"), s, p)
                     t == Run(Seq2(b, Rep(a, -1, -1)), s, p)
                 IN Same(g, t) /\ (g.ok => LET f == Folded(b, a, s, p) IN g.v = f.v /\ g.p = f.p)
  IN All(P)

\* Operators.  x is an atom, y and z are operators.
Z == Lit(<<"z">>)
W3 == UNION {[1..n -> {"x", "y", "z"}] : n \in 0..(MaxLen + 2)}
Atom(t)      == [ki |-> "atom", es |-> <<t>>, t |-> "x", args |-> <<>>, w |-> "", ra |-> "", la |-> "", np |-> 0]
Prefix(t, n, np) == [ki |-> "prefix", es |-> <<t>>, t |-> n, args |-> <<"r">>, w |-> "", ra |-> "r", la |-> "", np |-> np]
Postfix(t, n) == [ki |-> "postfix", es |-> <<t>>, t |-> n, args |-> <<"l">>, w |-> "", la |-> "l", ra |-> "", np |-> 0]
Infix(t, n, np) == [ki |-> "infix", es |-> <<t>>, t |-> n, args |-> <<"l", "r">>, w |-> "", la |-> "l", ra |-> "r", np |-> np]
\* a precedence expression whose operators are the literals in lits (referred to by index)
Prec(lits, pre, lev) == [k |-> "prec", ch |-> lits, pre |-> pre, lev |-> lev]
Lab(a, b, c, la, lb, lc, t, args) == [k |-> "seq", ch |-> <<a, b, c>>, lab |-> <<la, lb, lc>>, a |-> [k |-> "node", t |-> t, args |-> args]]
Leaf == [k |-> "seq", ch |-> <<X>>, lab |-> <<"">>, a |-> [k |-> "node", t |-> "x", args |-> <<>>]]
Un(a, b, la, lb, t, args) == [k |-> "seq", ch |-> <<a, b>>, lab |-> <<la, lb>>, a |-> [k |-> "node", t |-> t, args |-> args]]
Left(name, op, n, next)  == name :> [body |-> Alt2(Lab(Ref(name), op, next, "l", "", "r", n, <<"l", "r">>), next), cache |-> "lr"]
Right(name, op, n, next) == name :> [body |-> Alt2(Lab(next, op, Ref(name), "l", "", "r", n, <<"l", "r">>), next), cache |-> "none"]
AllW(t, rules, u) == \A s \in W3 : SameV(Run(t, s, 0), RunIn(rules, u, s, 0))
Assoc == {"left", "right"}
Layer(k, name, op, n, next) == IF k = "left" THEN Left(name, op, n, next) ELSE Right(name, op, n, next)
Np(k, level) == IF k = "left" THEN level + 1 ELSE level
Q(law) ==
  CASE law = "one-left-level-is-a-left-fold" -> AllW(Prec(<<X, Y>>, <<Atom(1)>>, <<<<Infix(2, "b", 1)>>>>), Left("e", Y, "b", Leaf), Ref("e"))
    [] law = "one-right-level-is-a-right-fold" -> AllW(Prec(<<X, Y>>, <<Atom(1)>>, <<<<Infix(2, "b", 0)>>>>), Right("e", Y, "b", Leaf), Ref("e"))
    [] law = "levels-are-layers" ->
         \A k, h \in Assoc : AllW(Prec(<<X, Y, Z>>, <<Atom(1)>>, <<<<Infix(2, "b", Np(k, 0))>>, <<Infix(3, "c", Np(h, 1))>>>>),
                                  Layer(k, "e", Y, "b", Ref("f")) @@ Layer(h, "f", Z, "c", Leaf), Ref("e"))
    [] law = "prefix-and-postfix" ->   \* y binds looser than z: y x z is y (x z), and x z is an operand of y
         AllW(Prec(<<X, Y, Z>>, <<Prefix(2, "p", 0), Atom(1)>>, <<<<>>, <<Postfix(3, "q")>>>>),
              ("e" :> [body |-> Alt2(Un(Y, Ref("e"), "", "r", "p", <<"r">>), Ref("f")), cache |-> "none"])
              @@ ("f" :> [body |-> Alt2(Un(Ref("f"), Z, "l", "", "q", <<"l">>), Leaf), cache |-> "lr"]), Ref("e"))

(***************************** checking ************************************)
\* One state per case of a law; a case that does not hold is a violation.
Cases == {<<"U", l, <<a>>>> : l \in Unary, a \in Exprs}
      \cup {<<"B", l, <<a, b>>>> : l \in Binary, a \in Few \cup Leaves, b \in Few \cup Leaves}
      \cup {<<"T", l, <<a, b, c>>>> : l \in Ternary, a \in Few, b \in Few, c \in Few}
      \cup {<<"L", l, <<a>>>> : l \in LoopLaws, a \in Eaters}
      \cup {<<"S", l, <<a, b>>>> : l \in SepLaws, a \in Eaters, b \in Few}
      \cup {<<"R", l, <<b, a>>>> : l \in GrowLaws, b \in Few, a \in Eaters}
      \cup {<<"Q", l, <<>>>> : l \in PrecLaws}
Holds(c) ==
  CASE c[1] = "U" -> U(c[2], c[3][1])
    [] c[1] = "B" -> B(c[2], c[3][1], c[3][2])
    [] c[1] = "T" -> T(c[2], c[3][1], c[3][2], c[3][3])
    [] c[1] = "L" -> L(c[2], c[3][1])
    [] c[1] = "S" -> S(c[2], c[3][1], c[3][2])
    [] c[1] = "R" -> R(c[2], c[3][1], c[3][2])
    [] c[1] = "Q" -> Q(c[2])
VARIABLES case, judged
Init == case \in Cases /\ judged = "?"
Next == judged = "?" /\ judged' = (IF Holds(case) THEN "holds" ELSE "broken") /\ UNCHANGED case
Spec == Init /\ [][Next]_<<case, judged>>
Law == judged # "broken"
=============================================================================
