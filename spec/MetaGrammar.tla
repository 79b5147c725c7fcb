---------------------------- MODULE MetaGrammar ----------------------------
(***************************************************************************)
(* The syntax of grammars: which token sequences are a grammar, and what a *)
(* rejected one is told about.                                             *)
(*                                                                         *)
(* A token is [k, s, j, m]:                                                *)
(*   k = "i" identifier s        k = "l" literal                           *)
(*   k = "p" punctuation s, j = 1 if the next token follows without space  *)
(*           and is punctuation too                                        *)
(*   k = "o" / "c" opening and closing delimiter s; m of an opening one is *)
(*           the index after its closing one                               *)
(*                                                                         *)
(* A result is [p, f, e]: p the index after the match (0: no match), f the *)
(* furthest index at which something specific was missing (0: none) and e  *)
(* what was missing there.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

----------------------------------------------------------------------------
(* Notation for syntax. *)
W(s)       == [k |-> "word", s |-> s]           \* the word or punctuation s
Ident      == [k |-> "ident"]
Literal    == [k |-> "lit"]
Group(d)   == [k |-> "group", s |-> d]          \* anything in brackets d
Q(es)      == [k |-> "seq", es |-> es]
Or(es)     == [k |-> "or", es |-> es]
Opt(x)     == [k |-> "opt", x |-> x]
Some(x)    == [k |-> "rep", x |-> x, n |-> 0]
Many(x)    == [k |-> "rep", x |-> x, n |-> 1]
List(x, s, n) == [k |-> "list", x |-> x, s |-> s, n |-> n]     \* x s x s x, at least n
Not(x)     == [k |-> "not", x |-> x]
R(r)       == [k |-> "ref", r |-> r]
RustArg    == [k |-> "until", s |-> ","]        \* Rust tokens up to a comma
Nil        == Q(<<>>)

Lifetime == Q(<<W("'"), Ident>>)
Commas(x) == Q(<<List(x, W(","), 1), Opt(W(","))>>)

Keywords == {"pub", "rule", "use", "type", "where"}

----------------------------------------------------------------------------
(* The syntax. *)
GrammarDef == Q(<<R("doc"), R("visibility"), W("grammar"), Ident, Opt(Q(<<W("<"), Commas(Lifetime), W(">")>>)),
                  W("("), List(Q(<<Ident, W(":"), R("type")>>), W(","), 0), Opt(W(",")), W(")"),
                  W("for"), R("type"), W("{"), Some(R("item")), W("}")>>)

Item == Or(<<Q(<<W("use"), R("path"), Or(<<Q(<<W("::"), W("*")>>),
                                          Q(<<W("::"), W("{"), Commas(Q(<<Ident, Opt(Q(<<W("as"), Ident>>))>>)), W("}")>>),
                                          Opt(Q(<<W("as"), Ident>>))>>), W(";")>>),
             R("rule")>>)
Path == Q(<<Opt(Q(<<W("crate"), W("::")>>)), List(Ident, W("::"), 1)>>)

Attr(x) == Q(<<W("#"), W("["), W(x), W("]")>>)
Doc == Some(Q(<<W("#"), W("["), W("doc"), W("="), Literal, W("]")>>))
Visibility == Opt(Q(<<W("pub"), Opt(Group("("))>>))

RuleDef == Q(<<R("doc"), Opt(Or(<<Attr("cache"), Attr("cache_left_rec")>>)), Opt(Attr("no_eof")), R("visibility"), W("rule"),
               Or(<<Q(<<R("underscores"), Opt(Q(<<W("("), W(")")>>))>>),
                    Q(<<Ident, Opt(R("typarams")), W("("), Opt(Commas(Q(<<Ident, W(":"), R("paramtype")>>))), W(")")>>)>>),
               Opt(Q(<<W("->"), R("type")>>)), Opt(R("where")), W("="), R("expression"), Opt(W(";"))>>)
ParamType == Or(<<Q(<<W("rule"), W("<"), R("type"), W(">")>>), R("type")>>)

\* Rust types
Type == Or(<<Group("["),
             Q(<<W("&"), Opt(Lifetime), Opt(W("mut")), R("type")>>),
             Q(<<W("dyn"), List(R("bound"), W("+"), 1)>>),
             Q(<<W("impl"), List(R("bound"), W("+"), 1)>>),
             Q(<<W("("), Opt(Commas(R("type"))), W(")")>>),
             Q(<<Opt(Q(<<W("<"), R("type"), Opt(Q(<<W("as"), R("typath")>>)), W(">")>>)), R("typath")>>)>>)
TyPath == Q(<<Opt(W("::")),
              List(Q(<<Ident, Opt(Q(<<Opt(W("::")), Or(<<R("generics"), Q(<<Group("("), Opt(Q(<<W("->"), R("type")>>))>>)>>)>>))>>), W("::"), 1)>>)
Bounds(x) == Opt(Q(<<W(":"), List(x, W("+"), 1)>>))
TyParams == Q(<<W("<"), Commas(Or(<<Q(<<Lifetime, Bounds(Lifetime)>>), Q(<<Ident, Bounds(R("bound"))>>)>>)), W(">")>>)
ForLt == Opt(Q(<<W("for"), R("typarams")>>))
Where == Q(<<W("where"), List(Or(<<Q(<<Lifetime, Bounds(Lifetime)>>), Q(<<ForLt, R("type"), W(":"), List(R("bound"), W("+"), 1)>>)>>), W(","), 0), Opt(W(","))>>)
Bound == Or(<<Lifetime, Q(<<Opt(W("?")), ForLt, R("typath")>>), Q(<<W("("), Opt(W("?")), ForLt, R("typath"), W(")")>>)>>)
Generics == Q(<<W("<"), Commas(Or(<<Lifetime, R("type"), Group("{"), Literal>>)), W(">")>>)

\* Expressions: choice, then sequence, then repetition, then prefix, then primary.
Expression == List(R("sequence"), W("/"), 1)
Sequence == Q(<<Some(R("labeled")), Opt(Group("{"))>>)
Labeled == Q(<<Opt(Q(<<Ident, Not(W("::")), W(":")>>)), R("repeated")>>)
Repeated == Q(<<R("prefixed"),
                Or(<<W("?"), Q(<<W("**"), R("count"), R("primary")>>), Q(<<W("++"), R("primary")>>), Q(<<W("*"), R("count")>>), W("+"), Nil>>)>>)
Num == Or(<<Literal, Group("{")>>)
Count == Or(<<Q(<<W("<"), Num, W(">")>>), Q(<<W("<"), Opt(Num), W(","), Opt(Num), W(">")>>), Nil>>)
Prefixed == Or(<<Q(<<Or(<<W("$"), W("&"), W("!")>>), R("primary")>>), R("primary")>>)
Special(x, args) == Q(<<W(x), W("!")>> \o args)
Primary == Or(<<Special("precedence", <<W("{"), List(R("level"), W("--"), 0), W("}")>>),
                Special("position", <<W("("), W(")")>>),
                Special("quiet", <<W("{"), R("expression"), W("}")>>),
                Special("expected", <<Group("(")>>),
                R("underscores"),
                Q(<<Ident, Opt(Q(<<W("::"), R("generics")>>)), W("("), List(Or(<<Q(<<W("<"), R("expression"), W(">")>>), RustArg>>), W(","), 0), W(")")>>),
                Literal,
                Group("["),
                Q(<<W("("), W("@"), W(")")>>),
                W("@"),
                Q(<<W("##"), Ident, Group("(")>>),
                Q(<<W("#"), Group("{")>>),
                Q(<<W("("), R("expression"), W(")")>>)>>)
Level == Many(Q(<<Some(R("labeled")), Group("{")>>))

Syntax(r) == CASE r = "doc" -> Doc [] r = "visibility" -> Visibility [] r = "item" -> Item [] r = "path" -> Path [] r = "rule" -> RuleDef
               [] r = "paramtype" -> ParamType [] r = "type" -> Type [] r = "typath" -> TyPath [] r = "typarams" -> TyParams [] r = "where" -> Where
               [] r = "bound" -> Bound [] r = "generics" -> Generics [] r = "expression" -> Expression [] r = "sequence" -> Sequence
               [] r = "labeled" -> Labeled [] r = "repeated" -> Repeated [] r = "count" -> Count [] r = "prefixed" -> Prefixed
               [] r = "primary" -> Primary [] r = "level" -> Level
               [] r = "underscores" -> [k |-> "under"]

----------------------------------------------------------------------------
(* Recognition of the token sequence T from index p on. *)
RECURSIVE WordEnd(_, _, _)
WordEnd(T, p, s) ==
  IF p > Len(T) THEN 0
  ELSE LET t == T[p] IN
       IF t.k = "p" THEN IF t.s # SubSeq(s, 1, 1) THEN 0
                         ELSE IF Len(s) = 1 THEN p + 1
                         ELSE IF t.j = 1 THEN WordEnd(T, p + 1, SubSeq(s, 2, Len(s))) ELSE 0
       ELSE IF t.k \in {"i", "o", "c"} /\ t.s = s THEN p + 1 ELSE 0

Is(T, p, k) == p <= Len(T) /\ T[p].k = k

RECURSIVE Until(_, _, _)
Until(T, p, s) ==
  IF p > Len(T) THEN p
  ELSE LET t == T[p] IN
       IF t.k = "o" THEN Until(T, t.m, s)
       ELSE IF t.k = "c" \/ (t.k = "p" /\ t.s = s) THEN p ELSE Until(T, p + 1, s)

Hit(p) == [p |-> p, f |-> 0, e |-> {}]
Miss == [p |-> 0, f |-> 0, e |-> {}]
\* the result r, with what was missing in q besides
Plus(r, q) == IF q.f > r.f THEN [r EXCEPT !.f = q.f, !.e = q.e] ELSE IF q.f = r.f THEN [r EXCEPT !.e = r.e \cup q.e] ELSE r

RECURSIVE M(_, _, _)
RECURSIVE MSeq(_, _, _, _)
RECURSIVE MOr(_, _, _, _)
RECURSIVE MRep(_, _, _, _, _)
RECURSIVE MList(_, _, _, _)

MSeq(T, es, i, p) ==
  IF i > Len(es) THEN Hit(p)
  ELSE LET a == M(T, es[i], p) IN IF a.p = 0 THEN a ELSE Plus(MSeq(T, es, i + 1, a.p), a)
MOr(T, es, i, p) ==
  IF i > Len(es) THEN Miss
  ELSE LET a == M(T, es[i], p) IN IF a.p # 0 THEN a ELSE Plus(MOr(T, es, i + 1, p), a)
\* further repetitions, c so far
MRep(T, x, n, c, p) ==
  LET a == M(T, x, p) IN
  IF a.p = 0 THEN Plus(IF c >= n THEN Hit(p) ELSE Miss, a) ELSE Plus(MRep(T, x, n, c + 1, a.p), a)
\* further separators and elements
MList(T, x, s, p) ==
  LET a == M(T, s, p) IN
  IF a.p = 0 THEN Plus(Hit(p), a)
  ELSE LET b == M(T, x, a.p) IN
       IF b.p = 0 THEN Plus(Plus(Hit(p), a), b) ELSE Plus(Plus(MList(T, x, s, b.p), a), b)

M(T, e, p) ==
  CASE e.k = "word"  -> LET q == WordEnd(T, p, e.s) IN IF q # 0 THEN Hit(q) ELSE [p |-> 0, f |-> p, e |-> {e.s}]
    [] e.k = "ident" -> IF Is(T, p, "i") /\ T[p].s \notin Keywords THEN Hit(p + 1) ELSE Miss
    [] e.k = "under" -> IF Is(T, p, "i") /\ T[p].s \in {"_", "__", "___"} THEN Hit(p + 1) ELSE Miss
    [] e.k = "lit"   -> IF Is(T, p, "l") THEN Hit(p + 1) ELSE Miss
    [] e.k = "group" -> IF Is(T, p, "o") /\ T[p].s = e.s THEN Hit(T[p].m) ELSE Miss
    [] e.k = "until" -> LET q == Until(T, p, e.s) IN IF q = p THEN Miss ELSE Hit(q)
    [] e.k = "seq"   -> MSeq(T, e.es, 1, p)
    [] e.k = "or"    -> MOr(T, e.es, 1, p)
    [] e.k = "opt"   -> LET a == M(T, e.x, p) IN IF a.p = 0 THEN Plus(Hit(p), a) ELSE a
    [] e.k = "rep"   -> MRep(T, e.x, e.n, 0, p)
    [] e.k = "list"  -> LET a == M(T, e.x, p) IN
                        IF a.p = 0 THEN Plus(IF e.n = 0 THEN Hit(p) ELSE Miss, a) ELSE Plus(MList(T, e.x, e.s, a.p), a)
    [] e.k = "not"   -> IF M(T, e.x, p).p = 0 THEN Hit(p) ELSE Miss
    [] e.k = "ref"   -> M(T, Syntax(e.r), p)

\* A whole text.
Read(T) == LET a == M(T, GrammarDef, 1) IN
           IF a.p = 0 THEN [ok |-> FALSE, at |-> IF a.f = 0 THEN 1 ELSE a.f, exp |-> a.e]
           ELSE IF a.p = Len(T) + 1 THEN [ok |-> TRUE, at |-> 0, exp |-> {}]
           ELSE LET b == Plus([p |-> 0, f |-> a.p, e |-> {"EOF"}], a) IN [ok |-> FALSE, at |-> b.f, exp |-> b.e]
=============================================================================
