--------------------------- MODULE PatternMachine ---------------------------
(***************************************************************************)
(* Patterns as machines that read one character after the other.           *)
(*                                                                         *)
(* A run of the machine is what is left to be matched: a sequence of       *)
(* syntax trees.  The machine is in a set of runs at once.  Repetitions    *)
(* count down, so that two runs that have the same things ahead of them    *)
(* are the same run: the number of runs depends on the pattern only.       *)
(*                                                                         *)
(* This reads long inputs and deeply nested patterns in linear time, which *)
(* the sets of positions of PatternLang do not.  MCPattern checks that     *)
(* both give the same answers.                                             *)
(***************************************************************************)
EXTENDS LexAbs, SequencesExt

RECURSIVE Nullable(_), AllNullable(_, _)
AllNullable(es, i) == IF i > Len(es) THEN TRUE ELSE Nullable(es[i]) /\ AllNullable(es, i + 1)
Nullable(e) ==
  CASE e.t = "eps" -> TRUE
    [] e.t = "set" -> FALSE
    [] e.t = "cat" -> AllNullable(e.es, 1)
    [] e.t = "alt" -> Nullable(e.l) \/ Nullable(e.r)
    [] e.t = "rep" -> (e.hi = Inf \/ e.lo <= e.hi) /\ (e.lo = 0 \/ Nullable(e.e))

(* The rest of a repetition after one more match of its body.  A body that *)
(* can be empty can make up for any number of missing matches.             *)
Less(n) == IF n = 0 THEN 0 ELSE n - 1
RestOf(e) ==
  [e EXCEPT !.lo = IF Nullable(e.e) THEN 0 ELSE Less(e.lo),
            !.hi = IF e.hi = Inf THEN Inf ELSE e.hi - 1]
Again(e, k) == LET r == RestOf(e) IN IF r.hi = 0 THEN k ELSE <<r>> \o k

(* Runs after the character c has been read by e, if k comes after e.      *)
RECURSIVE Read(_, _, _), ReadCat(_, _, _, _)
ReadCat(es, i, c, k) ==
  IF i > Len(es) THEN {}
  ELSE Read(es[i], c, SubSeq(es, i + 1, Len(es)) \o k)
         \cup (IF Nullable(es[i]) THEN ReadCat(es, i + 1, c, k) ELSE {})
Read(e, c, k) ==
  CASE e.t = "eps" -> {}
    [] e.t = "set" -> IF InSet(e, c) THEN {k} ELSE {}
    [] e.t = "cat" -> ReadCat(e.es, 1, c, k)
    [] e.t = "alt" -> Read(e.l, c, k) \cup Read(e.r, c, k)
    [] e.t = "rep" -> IF e.hi # Inf /\ (e.hi < e.lo \/ e.hi = 0) THEN {}
                      ELSE Read(e.e, c, Again(e, k))

Start(e) == {<<e>>}
Step(R, c) == UNION {ReadCat(k, 1, c, <<>>) : k \in R}
Accepting(R) == \E k \in R : AllNullable(k, 1)

(* Reading a whole word: the runs, the position, and the position of the   *)
(* last acceptance (0 if there was none).                                  *)
Advance(m, c) ==
  IF m.R = {} THEN m
  ELSE LET R2 == Step(m.R, c)
       IN  [R |-> R2, i |-> m.i + 1, best |-> IF Accepting(R2) THEN m.i + 1 ELSE m.best]
Ready(e, p) == [R |-> Start(e), i |-> p, best |-> p]
ReadAll(e, w) == FoldLeft(Advance, Ready(e, 0), w)

(* The same from position p on, in pieces, until no run is left.           *)
RECURSIVE ReadFrom(_, _, _)
ReadFrom(m, w, n) ==
  IF m.R = {} \/ m.i >= Len(w) THEN m
  ELSE LET j == IF m.i + n < Len(w) THEN m.i + n ELSE Len(w)
       IN  ReadFrom(FoldLeft(Advance, m, SubSeq(w, m.i + 1, j)), w, n * 4)

(* Length of the longest non-empty match at the start of w, or 0.          *)
MachineLongest(e, w) == ReadAll(e, w).best
MachineLongestFrom(e, w, p) == ReadFrom(Ready(e, p), w, 8).best - p
MachineMatches(e, w) == Accepting(ReadAll(e, w).R)

(* The counterparts of MunchLen and KindOf in LexAbs.                      *)
MachineMunch(es, w, p) ==
  LET Ls == {MachineLongestFrom(es[i], w, p) : i \in 1..Len(es)} \cup {0} IN SetMax(Ls)
MachineKind(es, text) ==
  LET M == {i \in 1..Len(es) : MachineMatches(es[i], text)}
  IN  IF M = {} THEN 0 ELSE SetMin(M)
=============================================================================
