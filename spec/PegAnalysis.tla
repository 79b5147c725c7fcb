---------------------------- MODULE PegAnalysis ----------------------------
(***************************************************************************)
(* What the macro has to say about a grammar before any input is seen:     *)
(* which rules can match without consuming input, which rules can reach    *)
(* themselves without consuming input, which repetitions can spin, and     *)
(* which references are ill-formed.                                        *)
(*                                                                         *)
(* A grammar is [nodes, rules]: nodes as in Peg.tla, rules a sequence of   *)
(*   [name, body, params, rps, cache, ret, pub, noeof, gen]                *)
(* params: parameter names; rps: those that are rule-valued; ret: 1 if the *)
(* rule returns a value; gen: 1 if it has type parameters.                 *)
(*                                                                         *)
(* Emptiness is judged from the operators alone: a literal, a pattern, a   *)
(* matcher written in Rust and a call of a rule-valued parameter count as  *)
(* consuming, and a repetition with an explicit minimum as repeating.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Names(A) == {A.rules[i].name : i \in 1..Len(A.rules)}
\* The definition that counts: the first one of that name.
Def(A, x) == A.rules[CHOOSE i \in 1..Len(A.rules) : A.rules[i].name = x /\ \A j \in 1..(i - 1) : A.rules[j].name # x]

Params(ru) == {ru.params[i] : i \in 1..Len(ru.params)}
Unmarked(A) == {x \in Names(A) : Def(A, x).cache # "lr"}

Elems(nd) == [i \in 1..Len(nd.es) |-> nd.es[i].n]

----------------------------------------------------------------------------
(* Emptiness.  N: set of rules known to match empty.  P: parameters in scope *)
RECURSIVE Empty(_, _, _, _)
RECURSIVE AllEmpty(_, _, _, _, _)
AllEmpty(A, ns, N, P, i) == i > Len(ns) \/ (Empty(A, ns[i], N, P) /\ AllEmpty(A, ns, N, P, i + 1))

Markers(A, op) == {i \in 1..Len(op.es) : A.nodes[op.es[i].n].k = "mark"}
\* A block can match empty if one of its atoms can.
AtomEmpty(A, op, N, P) == Markers(A, op) = {} /\ AllEmpty(A, Elems(op), N, P, 1)
BlockEmpty(A, nd, N, P) == \E i \in 1..Len(nd.ops) : AtomEmpty(A, nd.ops[i], N, P)

Empty(A, n, N, P) ==
  LET nd == A.nodes[n] IN
  CASE nd.k \in {"opt", "and", "not", "pos"} -> TRUE
    [] nd.k \in {"sl", "quiet"} -> Empty(A, nd.n, N, P)
    [] nd.k = "rep"  -> nd.lo = 0 \/ Empty(A, nd.n, N, P)
    [] nd.k = "seq"  -> AllEmpty(A, Elems(nd), N, P, 1)
    [] nd.k = "alt"  -> \E i \in 1..Len(nd.ns) : Empty(A, nd.ns[i], N, P)
    [] nd.k = "call" -> nd.r \notin P /\ nd.r \in N
    [] nd.k = "prec" -> BlockEmpty(A, nd, N, P)
    [] OTHER -> FALSE

RECURSIVE Close(_, _)
Close(A, N) ==
  LET M == N \cup {x \in Names(A) : LET ru == Def(A, x) IN Empty(A, ru.body, N, Params(ru))}
  IN IF M = N THEN N ELSE Close(A, M)
EmptyRules(A) == Close(A, {})

----------------------------------------------------------------------------
(* Rules attempted at the place where an expression starts. *)
RECURSIVE Heads(_, _, _, _)
RECURSIVE SeqHeads(_, _, _, _, _)
SeqHeads(A, ns, N, P, i) ==
  IF i > Len(ns) THEN {}
  ELSE Heads(A, ns[i], N, P) \cup (IF Empty(A, ns[i], N, P) THEN SeqHeads(A, ns, N, P, i + 1) ELSE {})

Heads(A, n, N, P) ==
  LET nd == A.nodes[n] IN
  CASE nd.k \in {"opt", "and", "not", "sl", "quiet"} -> Heads(A, nd.n, N, P)
    [] nd.k = "rep"  -> Heads(A, nd.n, N, P) \cup
                        (IF nd.sep # 0 /\ Empty(A, nd.n, N, P) THEN Heads(A, nd.sep, N, P) ELSE {})
    [] nd.k = "seq"  -> SeqHeads(A, Elems(nd), N, P, 1)
    [] nd.k = "alt"  -> UNION {Heads(A, nd.ns[i], N, P) : i \in 1..Len(nd.ns)}
    [] nd.k = "call" -> IF nd.r \in P \/ nd.r \notin Names(A) THEN {} ELSE {nd.r}
    [] nd.k = "prec" ->
         UNION {LET es == Elems(nd.ops[i]) IN
                \* operators that start with an operand come after an operand, which may be empty
                IF Len(es) > 0 /\ A.nodes[es[1]].k = "mark"
                THEN IF BlockEmpty(A, nd, N, P) THEN SeqHeads(A, es, N, P, 2) ELSE {}
                ELSE SeqHeads(A, es, N, P, 1) : i \in 1..Len(nd.ops)}
    [] OTHER -> {}

Reaches(A, N) == [x \in Names(A) |-> LET ru == Def(A, x) IN Heads(A, ru.body, N, Params(ru))]

RECURSIVE Grow(_, _)
Grow(R, S) == LET T == S \cup UNION {R[y] : y \in S} IN IF T = S THEN S ELSE Grow(R, T)
\* Rules that reach themselves without consuming input.
Circular(A, R) == {x \in Names(A) : x \in Grow(R, R[x])}
\* A cycle is resolved only if every rule on it ... (each unmarked rule on one is an error)
LeftRecursive(A, R) == Circular(A, R) \cap Unmarked(A)

\* A reported cycle r1 -> r2 -> ... -> r1 is one that exists.
RealCycle(A, R, c) == /\ Len(c) >= 2 /\ c[1] = c[Len(c)]
                      /\ \A i \in 1..(Len(c) - 1) : c[i] \in Names(A) /\ c[i + 1] \in R[c[i]]
                      /\ \E i \in 1..Len(c) : c[i] \in Unmarked(A)

----------------------------------------------------------------------------
(* Repetitions that can go on forever without consuming input. *)
SpinsRep(A, nd, N, P) == nd.k = "rep" /\ nd.hi = 0 /\ Empty(A, nd.n, N, P) /\ (nd.sep = 0 \/ Empty(A, nd.sep, N, P))

RestEmpty(A, op, N, P) == \A i \in (1..Len(op.es)) \ Markers(A, op) : Empty(A, op.es[i].n, N, P)
Capture(A, op) == Len(op.es) = 3 /\ A.nodes[op.es[1].n].k = "pos" /\ A.nodes[op.es[3].n].k = "pos"
\* operators of a precedence block that can be applied forever
SpinsOps(A, nd, N, P) ==
  IF nd.k # "prec" THEN {}
  ELSE {i \in 1..Len(nd.ops) :
          LET op == nd.ops[i]
              c  == Cardinality(Markers(A, op))
          IN c > 0 /\ RestEmpty(A, op, N, P) /\ (IF c = 1 THEN ~Capture(A, op) ELSE BlockEmpty(A, nd, N, P))}

\* owner[n] : index of the rule the node belongs to
Spins(A, N) ==
  UNION {LET nd == A.nodes[n]
             P  == Params(A.rules[nd.owner])
         IN (IF SpinsRep(A, nd, N, P) THEN {<<n, 0>>} ELSE {}) \cup {<<n, i>> : i \in SpinsOps(A, nd, N, P)}
         : n \in 1..Len(A.nodes)}

----------------------------------------------------------------------------
(* Ill-formed references: <<kind, node>>, or <<kind, -(index of the rule)>>. *)
\* used: is the value of the expression used?  That of the body of a rule that returns
\* a value, of labelled elements, of rule arguments, and of what passes its operand's value on.
RECURSIVE Faults(_, _, _, _, _)
RECURSIVE FaultsOf(_, _, _, _)
FaultsOf(A, xs, P, RP) == UNION {Faults(A, xs[i].n, P, RP, xs[i].u) : i \in 1..Len(xs)}

\* Where an operator of a precedence block has its operands: first, last, or both; or in
\* the middle of a rule that captures the span.
IsMark(A, op, i) == A.nodes[op.es[i].n].k = "mark"
Infix(A, op) == Len(op.es) >= 3 /\ IsMark(A, op, 1) /\ IsMark(A, op, Len(op.es))
Operand(A, op, i) ==
  /\ IsMark(A, op, i)
  /\ IF Capture(A, op) THEN i = 2
     ELSE Len(op.es) >= 2 /\ (i = 1 \/ (i = Len(op.es) /\ (Infix(A, op) \/ ~IsMark(A, op, 1))))

Faults(A, n, P, RP, used) ==
  IF n = 0 THEN {} ELSE
  LET nd == A.nodes[n] IN
  CASE nd.k \in {"opt", "and", "quiet"} -> Faults(A, nd.n, P, RP, used)
    [] nd.k \in {"not", "sl"} -> Faults(A, nd.n, P, RP, FALSE)
    [] nd.k = "rep" -> Faults(A, nd.n, P, RP, used) \cup (IF nd.sep = 0 THEN {} ELSE Faults(A, nd.sep, P, RP, FALSE))
    [] nd.k = "seq" -> FaultsOf(A, [i \in 1..Len(nd.es) |-> [n |-> nd.es[i].n, u |-> nd.es[i].l # ""]], P, RP)
    [] nd.k = "alt" -> FaultsOf(A, [i \in 1..Len(nd.ns) |-> [n |-> nd.ns[i], u |-> used]], P, RP)
    [] nd.k = "prec" ->
         UNION {LET op == nd.ops[j] IN
                IF Len(op.es) = 0 THEN {<<"emptyop", n>>}
                ELSE FaultsOf(A, [i \in 1..Len(op.es) |-> [n |-> IF Operand(A, op, i) THEN 0 ELSE op.es[i].n, u |-> op.es[i].l # ""]], P, RP)
                     \cup (IF Infix(A, op) /\ A.nodes[op.es[1].n].v = A.nodes[op.es[Len(op.es)].n].v THEN {<<"assoc", n>>} ELSE {})
                     \cup (IF Capture(A, op) /\ ~IsMark(A, op, 2) THEN {<<"badspan", n>>} ELSE {})
                : j \in 1..Len(nd.ops)}
    [] nd.k = "mark" -> {<<"marker", n>>}
    [] nd.k = "call" ->
         LET inner == UNION {IF nd.args[i].k = "e" THEN Faults(A, nd.args[i].n, P, RP, TRUE) ELSE {} : i \in 1..Len(nd.args)} IN
         IF nd.r \in P
         THEN (IF Len(nd.args) > 0 THEN {<<"parargs", n>>} ELSE {}) \cup (IF nd.gen = 1 THEN {<<"pargen", n>>} ELSE {})
         ELSE IF nd.r \notin Names(A) THEN {<<"undef", n>>}
         ELSE LET ru == Def(A, nd.r) IN
              (IF used /\ ru.ret = 0 THEN {<<"novalue", n>>} ELSE {})
              \cup (IF Len(ru.params) # Len(nd.args) THEN {<<"arity", n>>} ELSE {})
              \cup inner
    [] OTHER -> {}

FaultsIn(A, i) ==
  LET ru == A.rules[i] IN
  Faults(A, ru.body, Params(ru), {ru.rps[j] : j \in 1..Len(ru.rps)}, ru.ret = 1)
  \cup (IF \E j \in 1..(i - 1) : A.rules[j].name = ru.name THEN {<<"dup", -i>>} ELSE {})
  \cup (IF ru.cache # "no" /\ (Len(ru.params) > 0 \/ ru.gen = 1) THEN {<<"cacheparam", -i>>} ELSE {})
  \cup (IF ru.pub = 1 THEN {<<"pubparam", -i, j>> : j \in 1..Len(ru.rps)} ELSE {})
  \cup (IF ru.pub = 0 /\ ru.noeof = 1 THEN {<<"noeof", -i>>} ELSE {})

\* Sites of faults, with the name the error has to point at.
AllFaults(A) == UNION {FaultsIn(A, i) : i \in 1..Len(A.rules)}
Site(A, f) == IF f[1] = "marker" THEN "@"
              ELSE IF f[1] \in {"emptyop", "assoc", "badspan"} THEN "*"
              ELSE IF f[2] > 0 THEN A.nodes[f[2]].r
              ELSE IF f[1] = "pubparam" THEN A.rules[-f[2]].rps[f[3]] ELSE A.rules[-f[2]].name
=============================================================================
