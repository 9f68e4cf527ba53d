-------------------------------- MODULE Lr0 --------------------------------
(***************************************************************************)
(* LR(0) items, the canonical collection, and the SLR(1) condition.        *)
(* An item is <<r, d>>: rule number r with the bullet after d symbols.     *)
(***************************************************************************)
EXTENDS Cfg

AfterBullet(g, it) == g.rules[it[1]].b[it[2] + 1]
IsComplete(g, it)  == it[2] = Len(g.rules[it[1]].b)
NextSymbols(g, I)  == {AfterBullet(g, it) : it \in {x \in I : ~IsComplete(g, x)}}

StartItems(g, v) == {<<r, 0>> : r \in RulesOf(g, v)}

RECURSIVE ClosureFix(_, _, _)
ClosureFix(g, I, New) ==                            \* New: items added last
  LET J == UNION {StartItems(g, s) : s \in {x \in NextSymbols(g, New) : IsVar(x)}} \ I
  IN  IF J = {} THEN I ELSE ClosureFix(g, I \cup J, J)
Closure(g, I) == ClosureFix(g, I, I)

Advance1(g, I, X) == {<<it[1], it[2] + 1>> : it \in {x \in I : ~IsComplete(g, x) /\ AfterBullet(g, x) = X}}
GoTo(g, I, X) == Closure(g, Advance1(g, I, X))

StartState(g) == Closure(g, StartItems(g, g.start))

(* All states, layer by layer, with their transitions <<I, X, J>>.         *)
RECURSIVE Explore(_, _, _, _)
Explore(g, Seen, Layer, Trans) ==
  IF Layer = {} THEN [states |-> Seen, trans |-> Trans]
  ELSE LET T == UNION {{<<I, X, GoTo(g, I, X)>> : X \in NextSymbols(g, I)} : I \in Layer}
           New == {t[3] : t \in T} \ Seen
       IN  Explore(g, Seen \cup New, New, Trans \cup T)
Collection(g) == Explore(g, {StartState(g)}, {StartState(g)}, {})

---------------------------------------------------------------------------
(* The grammar extended with a new start variable, so that accepting is    *)
(* the reduction of the new rule in front of the end of the input.         *)

NewStart == 1000000
Extended(g) == [start |-> NewStart, rules |-> Append(g.rules, [h |-> NewStart, b |-> <<g.start>>])]

(* Actions of a state: <<look-ahead, "shift", 0>> and                      *)
(* <<look-ahead, "reduce", rule>>.                                         *)
Shifts(g, I)     == {<<t, "shift", 0>> : t \in {s \in NextSymbols(g, I) : IsTerm(s)}}
Reduces(g, I, L) == UNION {{<<t, "reduce", it[1]>> : t \in L[g.rules[it[1]].h]} : it \in {x \in I : IsComplete(g, x)}}
Actions(g, I, L) == Shifts(g, I) \cup Reduces(g, I, L)

NoConflict(A) == Cardinality({a[1] : a \in A}) = Cardinality(A)

\* x: an extended grammar, C: its collection, L: its FOLLOW sets
SlrStates(x, C, L) == \A I \in C.states : NoConflict(Actions(x, I, L))

IsSlr(g) == LET x == Extended(g) IN SlrStates(x, Collection(x), FollowSets(x))

(* The same grammar without the rules of unreachable variables.            *)
Reduced(g) ==
  LET R == Reachable(g)
      Keep(r) == r.h \in R
  IN  [start |-> g.start, rules |-> SelectSeq(g.rules, Keep)]
=============================================================================
