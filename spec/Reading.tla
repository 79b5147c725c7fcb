------------------------------ MODULE Reading ------------------------------
(***************************************************************************)
(* Conformance of the reading of grammar texts with MetaGrammar.tla.       *)
(* Corpus.cases[k] = [id, t : tokens, o : [ok, exp, at]]                   *)
(*   o.exp: the reported expected set ; o.at: index of the token reported  *)
(*   (0: not recorded)                                            *)
(***************************************************************************)
EXTENDS MetaGrammar, Json, IOUtils

Corpus == JsonDeserialize(IOEnv.CORPUS)
Cases == Corpus.cases

\* A closing delimiter is shown by its group.
Shown(T, p) == IF p <= Len(T) /\ T[p].k = "c" THEN CHOOSE q \in 1..p : T[q].k = "o" /\ T[q].m = p + 1 ELSE p

Bad(T, s, o) ==
  IF s.ok # (o.ok = 1) THEN {"RES"}
  ELSE IF s.ok THEN {}
  ELSE (IF {o.exp[i] : i \in 1..Len(o.exp)} # s.exp THEN {"EXP"} ELSE {})
       \cup (IF o.at # 0 /\ o.at # Shown(T, s.at) THEN {"LOC"} ELSE {})

\* The syntax itself, for deriving sentences.
RuleNames == {"doc", "visibility", "item", "path", "rule", "paramtype", "type", "typath", "typarams", "where", "bound", "generics", "expression",
              "sequence", "labeled", "repeated", "count", "prefixed", "primary", "level", "underscores"}
ASSUME IF "SYNTAX" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.SYNTAX, [x \in RuleNames \cup {"grammar"} |-> IF x = "grammar" THEN GrammarDef ELSE Syntax(x)]) ELSE TRUE

VARIABLES k
Init == k = 0
Next == /\ k < Len(Cases)
        /\ k' = k + 1
        /\ LET c == Cases[k']
               s == Read(c.t)
               b == Bad(c.t, s, c.o)
           IN /\ IF b = {} THEN TRUE ELSE PrintT("@MIS " \o ToString(c.id) \o " " \o ToString(b) \o " | prescribed: " \o
                                                  (IF s.ok THEN "read" ELSE "rejected at token " \o ToString(s.at) \o ", expected " \o ToString(s.exp)))
              /\ PrintT("@ST " \o ToString(c.id) \o " " \o (IF s.ok THEN "1" ELSE "0") \o " " \o ToString(s.at) \o " " \o ToString(Cardinality(s.exp)))
Spec == Init /\ [][Next]_k
AllChecked == TLCGet("stats").diameter - 1 = Len(Cases)
=============================================================================
