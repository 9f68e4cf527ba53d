----------------------------- MODULE CountedNfa -----------------------------
(***************************************************************************)
(* The automata patterns are compiled to, and how they are run.            *)
(*                                                                         *)
(* An automaton is a set of transitions <<from, label, to>> between        *)
(* numbered states; state 0 is the start state.  Labels are                *)
(*   [k |-> "eps"]            taken at any time                            *)
(*   [k |-> "set", e]         taken on a character of the set e            *)
(*   [k |-> "count", lo, hi]  taken if the state has been left between lo  *)
(*                            and hi times by its other transitions        *)
(* A repetition is one state with a counting transition to what comes      *)
(* after it; the body leads from this state back to it.                    *)
(*                                                                         *)
(* A run is [q |-> state, n |-> counts of the repetitions it is in].       *)
(* Counts are only kept as far as they can be told apart, which is what    *)
(* makes the number of runs finite.                                        *)
(***************************************************************************)
EXTENDS LexAbs, TLC

Eps == [k |-> "eps"]
OnSet(e) == [k |-> "set", e |-> e]
OnCount(lo, hi) == [k |-> "count", lo |-> lo, hi |-> hi]

(* c = [n |-> number of states used, tr |-> transitions]                   *)
RECURSIVE Compile(_, _, _, _), CompileCat(_, _, _, _, _)
CompileCat(c, es, i, from, to) ==
  IF i = Len(es) THEN Compile(c, es[i], from, to)
  ELSE LET q == c.n
           d == Compile([c EXCEPT !.n = @ + 1], es[i], from, q)
       IN  CompileCat(d, es, i + 1, q, to)
Compile(c, e, from, to) ==
  CASE e.t = "eps" -> [c EXCEPT !.tr = @ \cup {<<from, Eps, to>>}]
    [] e.t = "set" -> [c EXCEPT !.tr = @ \cup {<<from, OnSet(e), to>>}]
    [] e.t = "cat" -> CompileCat(c, e.es, 1, from, to)
    [] e.t = "alt" -> Compile(Compile(c, e.l, from, to), e.r, from, to)
    [] e.t = "rep" ->
         LET q == c.n
             d == [n |-> q + 1, tr |-> c.tr \cup {<<from, Eps, q>>, <<q, OnCount(e.lo, e.hi), to>>}]
         IN  Compile(d, e.e, q, q)

(* One automaton for several patterns: pattern i has the final state i.    *)
RECURSIVE CompileAll(_, _, _)
CompileAll(c, es, i) ==
  IF i > Len(es) THEN c ELSE CompileAll(Compile(c, es[i], 0, i), es, i + 1)
Automaton(es) ==
  LET c == CompileAll([n |-> Len(es) + 1, tr |-> {}], es, 1)
      From(q) == {t \in c.tr : t[1] = q}
      Count(q) == {t[2] : t \in {u \in From(q) : u[2].k = "count"}}
      Top(l) == IF l.hi = Inf THEN l.lo ELSE l.hi + 1
  IN  [fin |-> 1..Len(es),
       out |-> [q \in 0..c.n - 1 |-> From(q)],
       cap |-> [q \in 0..c.n - 1 |-> SetMax({Top(l) : l \in Count(q)} \cup {0})],
       cnt |-> [q \in 0..c.n - 1 |-> Count(q)]]

---------------------------------------------------------------------------
CountOf(r) == IF r.q \in DOMAIN r.n THEN r.n[r.q] ELSE 0
Satisfied(l, n) == l.lo <= n /\ (l.hi = Inf \/ n <= l.hi)
Without(f, q) == [x \in DOMAIN f \ {q} |-> f[x]]

(* The set of runs after r has taken a transition to q: by counting, which *)
(* forgets the count, or otherwise, which adds one.  No run is left if the *)
(* count can never be satisfied again.                                     *)
Counted(r, q) == {[q |-> q, n |-> Without(r.n, r.q)]}
Moved(a, r, q) ==
  LET n == IF CountOf(r) + 1 < a.cap[r.q] THEN CountOf(r) + 1 ELSE a.cap[r.q]
  IN  IF \E l \in a.cnt[r.q] : l.hi # Inf /\ n > l.hi THEN {}
      ELSE {[q |-> q, n |-> IF n = 0 THEN Without(r.n, r.q) ELSE (r.q :> n) @@ r.n]}

Silent(a, r) ==
  UNION {CASE t[2].k = "eps" -> Moved(a, r, t[3])
           [] t[2].k = "count" -> IF Satisfied(t[2], CountOf(r)) THEN Counted(r, t[3]) ELSE {}
           [] OTHER -> {} : t \in a.out[r.q]}

RECURSIVE SilentFix(_, _, _)
SilentFix(a, R, New) ==
  LET N == UNION {Silent(a, r) : r \in New} \ R
  IN  IF N = {} THEN R ELSE SilentFix(a, R \cup N, N)

Begin(a) == LET R == {[q |-> 0, n |-> <<>>]} IN SilentFix(a, R, R)

Takes(a, r, c) == {t \in a.out[r.q] : t[2].k = "set" /\ InSet(t[2].e, c)}
CanFeed(a, R, c) == \E r \in R : Takes(a, r, c) # {}
Feed(a, R, c) ==
  LET S == UNION {UNION {Moved(a, r, t[3]) : t \in Takes(a, r, c)} : r \in R}
  IN  SilentFix(a, S, S)

Finals(a, R) == {r.q : r \in R} \cap a.fin
=============================================================================
