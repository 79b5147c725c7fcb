------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Conformance of recorded parses with the semantics of Peg.tla.           *)
(*                                                                         *)
(* The corpus file (environment variable CORPUS) holds grammars, inputs    *)
(* and, for each case, the outcome the generated Rust parser produced.  A  *)
(* behaviour of this module walks through the cases; the step for a case   *)
(* computes what the semantics prescribes and compares every component     *)
(* of the recorded outcome with it.                                        *)
(***************************************************************************)
EXTENDS Peg, Json, IOUtils

Corpus == JsonDeserialize(IOEnv.CORPUS)
Grammars == Corpus.grammars
Cases == Corpus.cases
N == Len(Cases)

Loc(I, p) == IF I.ix = 1 THEN p ELSE Off(I, p)

\* Compare a recorded outcome o with the prescribed outcome s; the result is
\* the set of components that differ.
\*   RES    accepted / rejected (ABORT: the parser crashed, hung or panicked)
\*   END    where the match of a prefix ended
\*   VAL    the value;   LOC the location;  EXP the expected tokens
\*   EOF    presence of EOF among the expected tokens
\*   LC     line and column;  DISP the Display forms
\*   CNT    a memoised body was evaluated more often than allowed
\* A recorded value of an entry with top = 1 comes split into v and the end e.
Whole(c, o) == IF c.top = 1 THEN NodeV("top", <<o.v, PosV(o.e)>>) ELSE o.v

Diff(I, c, s, o) ==
  IF o.k \notin {"O", "E"} THEN {"RES", "ABORT"}
  ELSE IF s.ok # (o.k = "O") THEN {"RES"}
  ELSE IF s.ok THEN (IF c.top = 1 /\ Off(I, s.p) # o.e THEN {"END"} ELSE {})
                    \cup (IF s.v # (IF c.top = 1 THEN NodeV("top", <<o.v, PosV(Off(I, s.p))>>) ELSE o.v) THEN {"VAL"} ELSE {})
  ELSE (IF Loc(I, s.at) # o.off THEN {"LOC"} ELSE {})
       \cup (LET T == {o.toks[i] : i \in 1..Len(o.toks)} IN
             (IF T # s.exp THEN {"EXP"} ELSE {})
             \cup (IF ("EOF" \in T) # ("EOF" \in s.exp) THEN {"EOF"} ELSE {}))
       \cup (IF I.lc = 1 /\ (o.lc # 1 \/ ~\E q \in (IF I.pad > 2000 THEN {0} \cup I.pad..Size(I) ELSE 0..Size(I)) : Off(I, q) = o.off /\ Line(I, q) = o.line /\ ColFrom(I, q) = o.col)
             THEN {"LC"} ELSE {})
       \cup (IF o.disp # 1 THEN {"DISP"} ELSE {})

Describe(s, I) == IF s.ok THEN "ok " \o s.v \o " end@" \o ToString(s.p)
                  ELSE "err at offset " \o ToString(Off(I, s.at)) \o " expected " \o ToString(s.exp)

VARIABLES k, last

Init == k = 0 /\ last = {}

CheckCase == /\ k < N
             /\ LET c == Cases[k + 1]
                    G == Grammars[c.g]
                    I == c.i
                    s == Parse(G, I, G.ents[c.e])
                    d == Diff(I, G.ents[c.e], s, c.o) \cup (IF c.ticks > (IF s.ok THEN Corpus.maxticks \div 2 ELSE Corpus.maxticks) THEN {"CNT"} ELSE {})
                IN /\ last' = d
                   /\ IF d = {} THEN TRUE ELSE PrintT("@MIS " \o ToString(c.id) \o " " \o ToString(d) \o " | " \o Describe(s, I))
                   /\ IF Corpus.stats = 0 THEN TRUE ELSE (PrintT("@ST " \o ToString(c.id) \o " " \o (IF s.ok THEN "ok" ELSE "err") \o " "
                                \o ToString(IF s.ok THEN s.p ELSE s.at) \o " " \o ToString(IF s.ok THEN 0 ELSE Cardinality(s.exp))))
             /\ k' = k + 1

Spec == Init /\ [][CheckCase]_<<k, last>>

\* Every case was looked at.
AllChecked == TLCGet("stats").diameter - 1 = N
=============================================================================
