----------------------------- MODULE WorkLists -----------------------------
(***************************************************************************)
(* How FIRST and FOLLOW are computed: with lists of work still to be done, *)
(* in an order that depends on hash tables, here therefore in any order.   *)
(*                                                                         *)
(* FIRST of the rest of a body.  A piece of work is <<x, r, i>>: what body *)
(* r begins with from its symbol i on belongs to FIRST of x.  Variables    *)
(* are looked into when they are first met; work that met a variable is    *)
(* done again when the FIRST set of the variable has grown.                *)
(* s = [todo, first, deps, seen]; x = 0 is the body that was asked about,  *)
(* the empty string is the symbol 0.                                       *)
(***************************************************************************)
EXTENDS Cfg

FirstReady(g, r, i) ==
  [todo |-> {<<0, r, i>>}, first |-> [x \in Vars(g) \cup {0} |-> {}],
   deps |-> [v \in Vars(g) |-> {}], seen |-> {}]

\* S is added to FIRST of x
Grown(s, x, S) ==
  LET n == [s EXCEPT !.first[x] = @ \cup S]
  IN  IF x = 0 \/ n.first = s.first THEN n
      ELSE [n EXCEPT !.todo = @ \cup s.deps[x], !.deps[x] = {}]

RECURSIVE Scan(_, _, _, _, _)
Scan(g, s, x, r, i) ==
  LET b == g.rules[r].b IN
  IF i > Len(b) THEN IF Len(b) = 0 THEN Grown(s, x, {0}) ELSE s
  ELSE IF IsTerm(b[i]) THEN Grown(s, x, {b[i]})
  ELSE LET v == b[i]
           d == [s EXCEPT !.deps[v] = @ \cup {<<x, r, i>>}]
       IN  IF v \notin s.seen
           THEN [d EXCEPT !.seen = @ \cup {v}, !.todo = @ \cup {<<v, q, 1>> : q \in RulesOf(g, v)}]
           ELSE LET F == s.first[v]
                    e == Grown(d, x, IF i = Len(b) THEN F ELSE F \ {0})
                IN  IF 0 \in F THEN Scan(g, e, x, r, i + 1) ELSE e

FirstStep(g, s, job) == Scan(g, [s EXCEPT !.todo = @ \ {job}], job[1], job[2], job[3])

(* What the computation must arrive at.                                    *)
FirstGoal(g, r, i) ==
  LET N == NullableVars(g)
  IN  FirstOfFrom(g.rules[r].b, i, N, FirstSets(g, N))
        \cup (IF NullableFrom(g.rules[r].b, i, N) THEN {0} ELSE {})

---------------------------------------------------------------------------
(* FOLLOW.  A piece of work is <<to, from>>: FOLLOW of to includes FOLLOW  *)
(* of from.                                                                *)
Includes(g) ==
  LET N == NullableVars(g)
  IN  UNION {UNION {{<<g.rules[r].b[i], g.rules[r].h>>}
                      : i \in {j \in 1..Len(g.rules[r].b) :
                                 IsVar(g.rules[r].b[j]) /\ NullableFrom(g.rules[r].b, j + 1, N)}}
               : r \in RuleIds(g)}
FollowReady(g) ==
  LET N == NullableVars(g)
      F == FirstSets(g, N)
  IN  [todo |-> Includes(g),
       follow |-> [v \in Vars(g) |-> (IF v = g.start THEN {EndMark} ELSE {})
                     \cup UNION {FirstOfFrom(g.rules[o[1]].b, o[2] + 1, N, F) : o \in Occurrences(g, v)}]]
FollowStep(g, s, job) ==
  LET n == [s EXCEPT !.todo = @ \ {job}, !.follow[job[1]] = @ \cup s.follow[job[2]]]
  IN  IF n.follow = s.follow THEN n
      ELSE [n EXCEPT !.todo = @ \cup {j \in Includes(g) : j[2] = job[1]}]
=============================================================================
