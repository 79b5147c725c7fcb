-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Positions in texts.  A behaviour picks a text of the corpus and reads   *)
(* it one character at a time, keeping byte offset, line and column the    *)
(* way an editor would.  At every boundary where the implementation was    *)
(* asked for a position, all its answers have to be the state reached.     *)
(*                                                                         *)
(* Corpus.texts[t] = [n  : number of characters,                           *)
(*                    runs : <<[c : name, w : bytes, k : how many times]>> *)
(*                    at : <<boundaries, ascending>>,                      *)
(*                    rec : rec[j] = <<answers at boundary at[j]>>]        *)
(* answer: [k : "lc", off, line, col, d : display form] or                 *)
(*         [k : "ix", off : element index, d : display form]               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Corpus == JsonDeserialize(IOEnv.CORPUS)
Texts == Corpus.texts

VARIABLES t,      \* which text
          r, i,   \* run being read, characters of it already read
          n,      \* boundary: characters read so far
          off, line, col,
          j       \* next recorded boundary

vars == <<t, r, i, n, off, line, col, j>>

Init == /\ t \in 1..Len(Texts)
        /\ r = 1 /\ i = 0 /\ n = 0 /\ off = 0 /\ line = 1 /\ col = 1 /\ j = 1

Here == j <= Len(Texts[t].at) /\ Texts[t].at[j] = n

Right(a) == CASE a.k = "lc" -> a.off = off /\ a.line = line /\ a.col = col /\ a.d = ToString(line) \o ":" \o ToString(col)
              [] a.k = "ix" -> a.off = n /\ a.d = ToString(n)
              [] OTHER -> FALSE

Bad == IF Here THEN {a \in {Texts[t].rec[j][x] : x \in 1..Len(Texts[t].rec[j])} : ~Right(a)} ELSE {}

Read ==
  /\ n < Texts[t].n
  /\ LET run == Texts[t].runs[r] IN
     /\ IF i + 1 = run.k THEN r' = r + 1 /\ i' = 0 ELSE r' = r /\ i' = i + 1
     /\ off' = off + run.w
     /\ line' = IF run.c = "U+A" THEN line + 1 ELSE line
     /\ col' = IF run.c = "U+A" THEN 1 ELSE col + 1
  /\ n' = n + 1
  /\ j' = IF Here THEN j + 1 ELSE j
  /\ t' = t
  /\ IF Bad = {} THEN TRUE ELSE PrintT("@MIS " \o ToString(t) \o " " \o ToString(n) \o " " \o ToString(line) \o ":" \o ToString(col) \o " offset " \o ToString(off) \o " recorded " \o ToString(CHOOSE a \in Bad : TRUE))

\* The end of the text is a boundary too.
Last ==
  /\ n = Texts[t].n /\ i # -1
  /\ IF Bad = {} THEN TRUE ELSE PrintT("@MIS " \o ToString(t) \o " " \o ToString(n) \o " " \o ToString(line) \o ":" \o ToString(col) \o " offset " \o ToString(off) \o " recorded " \o ToString(CHOOSE a \in Bad : TRUE))
  /\ PrintT("@ST " \o ToString(t) \o " " \o ToString(IF Here THEN j ELSE j - 1))
  /\ i' = -1 /\ UNCHANGED <<t, r, n, off, line, col, j>>

Spec == Init /\ [][Read \/ Last]_vars

----------------------------------------------------------------------------
(* The stepwise reading agrees with the definition by counting. *)
RunAt(p) == CHOOSE x \in 1..Len(Texts[t].runs) :
              LET before(y) == IF y = 0 THEN 0 ELSE Texts[t].ends[y] IN before(x - 1) < p /\ p <= before(x)
Newline(p) == Texts[t].runs[RunAt(p)].c = "U+A"
ByCounting ==
  Texts[t].n <= 6 =>
    /\ line = 1 + Cardinality({p \in 1..n : Newline(p)})
    /\ col = 1 + Cardinality({p \in 1..n : \A q \in p..n : ~Newline(q)})
    /\ off >= n
=============================================================================
