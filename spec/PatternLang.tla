---------------------------- MODULE PatternLang ----------------------------
(***************************************************************************)
(* Meaning of syntax trees. Ends(e, w, S) is the set of positions of w at  *)
(* which a match of e can end that starts at one of the positions in S.    *)
(* Position i is the place before the character w[i + 1].                  *)
(***************************************************************************)
EXTENDS PatternSyntax, FiniteSets, FiniteSetsExt

InItem(it, c) ==
  IF it.k = "rng" THEN it.a <= c /\ c <= it.b ELSE InClass(it.a, c)

InSet(e, c) == (\E i \in 1..Len(e.items) : InItem(e.items[i], c)) # e.neg

\* of non-empty sets of positions
SetMax(S) == FoldSet(LAMBDA x, y : IF x > y THEN x ELSE y, 0, S)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE Ends(_, _, _), CatEnds(_, _, _, _), RepEnds(_, _, _, _, _, _, _)

(* R is the set of positions reached after exactly k repetitions and acc   *)
(* the union of these sets for the counts in lo..hi seen so far. If the    *)
(* next set is the same, it stays the same for all higher counts.          *)
RepEnds(e, lo, hi, k, w, R, acc) ==
  IF R = {} \/ (hi # Inf /\ k > hi) THEN acc
  ELSE LET acc2 == IF k >= lo THEN acc \cup R ELSE acc
           R2   == IF hi # Inf /\ k >= hi THEN {} ELSE Ends(e, w, R)
       IN  IF R2 = R THEN IF hi = Inf \/ hi >= lo THEN acc2 \cup R ELSE acc2
           ELSE RepEnds(e, lo, hi, k + 1, w, R2, acc2)

CatEnds(es, i, w, S) ==
  IF i > Len(es) \/ S = {} THEN S ELSE CatEnds(es, i + 1, w, Ends(es[i], w, S))

Ends(e, w, S) ==
  CASE e.t = "eps" -> S
    [] e.t = "set" -> {i + 1 : i \in {j \in S : j < Len(w) /\ InSet(e, w[j + 1])}}
    [] e.t = "cat" -> CatEnds(e.es, 1, w, S)
    [] e.t = "alt" -> Ends(e.l, w, S) \cup Ends(e.r, w, S)
    [] e.t = "rep" -> RepEnds(e.e, e.lo, e.hi, 0, w, S, {})

(* Does e match all of w?                                                  *)
Matches(e, w) == Len(w) \in Ends(e, w, {0})

(* Length of the longest non-empty match of e in w from position p, or 0.  *)
LongestFrom(e, w, p) ==
  LET E == {x \in Ends(e, w, {p}) : x > p}
  IN  IF E = {} THEN 0 ELSE SetMax(E) - p
=============================================================================
