------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* Conformance of the generator's verdicts with PegAnalysis.tla.           *)
(* Corpus.cases[k] = [id, A : grammar, o : recorded verdict, want : what   *)
(* is compared ("lr", "loop", "form")]                                     *)
(*   o.lr    : <<cycles reported>> (sequences of rule names)               *)
(*   o.loops : number of loop errors reported                              *)
(*   o.form  : <<[kind, name]>> ill-formed references reported             *)
(*   o.other : 1 if it reported anything else                              *)
(***************************************************************************)
EXTENDS PegAnalysis, Json, IOUtils

Corpus == JsonDeserialize(IOEnv.CORPUS)
Cases == Corpus.cases

Range(s) == {s[i] : i \in 1..Len(s)}

\* The set of complaints about case c.
Judge(c) ==
  LET A == c.A
      N == EmptyRules(A)
      R == Reaches(A, N)
      L == LeftRecursive(A, R)
      S == Spins(A, N)
      F == AllFaults(A)
      sites == {<<f[1], Site(A, f)>> : f \in F}
      rep == {<<c.o.form[i].kind, c.o.form[i].name>> : i \in 1..Len(c.o.form)}
      W == Range(c.want)
      match(x, y) == x[1] = y[1] /\ (x[2] = y[2] \/ y[2] = "*" \/ x[2] = "*")
  IN [bad |->
      (IF "lr" \in W /\ L # {} /\ Len(c.o.lr) = 0 THEN {"left recursion of " \o ToString(L) \o " not reported"} ELSE {})
      \cup (IF "lr" \in W /\ L = {} /\ Len(c.o.lr) > 0 THEN {"no left recursion, but reported"} ELSE {})
      \cup (IF "lr" \in W THEN {"reported cycle does not exist: " \o ToString(y) : y \in {x \in Range(c.o.lr) : ~RealCycle(A, R, x)}} ELSE {})
      \cup (IF "loop" \in W /\ Cardinality(S) # c.o.loops THEN {ToString(Cardinality(S)) \o " repetitions can spin, " \o ToString(c.o.loops) \o " reported"} ELSE {})
      \cup (IF "form" \in W THEN {"not an error: " \o ToString(x) : x \in {y \in rep : ~\E z \in sites : match(y, z)}} ELSE {})
      \cup (IF "form" \in W /\ F # {} /\ rep = {} THEN {"ill-formed but accepted: " \o ToString(sites)} ELSE {})
      \cup (IF "all" \in W THEN {"not reported: " \o ToString(z) : z \in {y \in sites : ~\E x \in rep : match(x, y)}} ELSE {})
      \cup (IF c.o.other = 1 THEN {"unexpected error"} ELSE {}),
      lr |-> L # {}, loop |-> S # {}, form |-> F # {}, empty |-> Cardinality(N)]

VARIABLES k
Init == k = 0
Next == /\ k < Len(Cases)
        /\ k' = k + 1
        /\ LET c == Cases[k']
               j == Judge(c)
               b(x) == IF x THEN "1" ELSE "0"
           IN /\ IF j.bad = {} THEN TRUE ELSE PrintT("@MIS " \o ToString(c.id) \o " " \o ToString(j.bad))
              /\ PrintT("@ST " \o ToString(c.id) \o " " \o b(j.lr) \o " " \o b(j.loop) \o " " \o b(j.form) \o " " \o ToString(j.empty))
Spec == Init /\ [][Next]_k
AllChecked == TLCGet("stats").diameter - 1 = Len(Cases)
=============================================================================
