-------------------------------- MODULE Cfg --------------------------------
(***************************************************************************)
(* Context-free grammars.                                                  *)
(*                                                                         *)
(* Symbols are integers: variables are positive, terminals negative.  A    *)
(* terminal stands for a kind of tokens; the payload of tokens does not    *)
(* matter to a grammar.  A grammar is a record                             *)
(*   [start |-> variable, rules |-> sequence of distinct [h, b]]           *)
(* h is the head of the rule, b its body, a sequence of symbols without    *)
(* the empty-string symbol, which is why the empty body is the only way to *)
(* say "empty string" here.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

EndMark == 0                                        \* end of the input

IsVar(s)  == s > 0
IsTerm(s) == s < 0


RuleIds(g) == 1..Len(g.rules)
Heads(g)   == {g.rules[r].h : r \in RuleIds(g)}
Symbols(g) == UNION {ToSet(g.rules[r].b) : r \in RuleIds(g)}
Vars(g)    == {g.start} \cup Heads(g) \cup {s \in Symbols(g) : IsVar(s)}
Terms(g)   == {s \in Symbols(g) : IsTerm(s)}
RulesOf(g, v) == {r \in RuleIds(g) : g.rules[r].h = v}

(* A grammar may be built if nothing in it is undefined.                   *)
Complete(g) == \A v \in Vars(g) : v \in Heads(g)

(* Variables that occur in some sentential form.                           *)
RECURSIVE ReachFrom(_, _)
ReachFrom(g, V) ==
  LET W == V \cup {s \in UNION {ToSet(g.rules[r].b) : r \in {q \in RuleIds(g) : g.rules[q].h \in V}} : IsVar(s)}
  IN  IF W = V THEN V ELSE ReachFrom(g, W)
Reachable(g) == ReachFrom(g, {g.start})

(* Least set of variables that contains the head of every rule all whose   *)
(* body symbols satisfy Base or are in the set.                            *)
RECURSIVE Generated(_, _, _)
Generated(g, Base(_), V) ==
  LET W == V \cup {g.rules[r].h : r \in {q \in RuleIds(g) :
                      \A i \in 1..Len(g.rules[q].b) : g.rules[q].b[i] \in V \/ Base(g.rules[q].b[i])}}
  IN  IF W = V THEN V ELSE Generated(g, Base, W)

NullableVars(g)   == LET No(s) == FALSE IN Generated(g, No, {})
ProductiveVars(g) == Generated(g, IsTerm, {})
AllProductive(g)  == ProductiveVars(g) = Vars(g)

---------------------------------------------------------------------------
(* FIRST and FOLLOW as least fixed points.                                 *)

\* N: nullable variables; F: FIRST sets so far (terminals only)
RECURSIVE FirstOfFrom(_, _, _, _)
FirstOfFrom(b, i, N, F) ==
  IF i > Len(b) THEN {}
  ELSE IF IsTerm(b[i]) THEN {b[i]}
  ELSE F[b[i]] \cup (IF b[i] \in N THEN FirstOfFrom(b, i + 1, N, F) ELSE {})

NullableFrom(b, i, N) == \A j \in i..Len(b) : b[j] \in N

RECURSIVE FirstFix(_, _, _)
FirstFix(g, N, F) ==
  LET G == [v \in DOMAIN F |->
              F[v] \cup UNION {FirstOfFrom(g.rules[r].b, 1, N, F) : r \in RulesOf(g, v)}]
  IN  IF G = F THEN F ELSE FirstFix(g, N, G)
FirstSets(g, N) == FirstFix(g, N, [v \in Vars(g) |-> {}])

\* places where v occurs in a body
Occurrences(g, v) == UNION {{<<r, i>> : i \in {j \in 1..Len(g.rules[r].b) : g.rules[r].b[j] = v}} : r \in RuleIds(g)}

RECURSIVE FollowFix(_, _, _, _)
FollowFix(g, N, Occ, L) ==
  LET M == [v \in DOMAIN L |->
              L[v] \cup UNION {L[g.rules[o[1]].h] : o \in {p \in Occ[v] : NullableFrom(g.rules[p[1]].b, p[2] + 1, N)}}]
  IN  IF M = L THEN L ELSE FollowFix(g, N, Occ, M)
FollowSets(g) ==
  LET N   == NullableVars(g)
      F   == FirstSets(g, N)
      Occ == [v \in Vars(g) |-> Occurrences(g, v)]
      L0  == [v \in Vars(g) |->
                (IF v = g.start THEN {EndMark} ELSE {})
                  \cup UNION {FirstOfFrom(g.rules[o[1]].b, o[2] + 1, N, F) : o \in Occ[v]}]
  IN  FollowFix(g, N, Occ, L0)

---------------------------------------------------------------------------
(* Derivations.  D is a set of <<v, i, j>>: v derives the terminals        *)
(* w[i+1..j].  Derived is the least such set that the rules generate.      *)

RECURSIVE BodyEnds(_, _, _, _, _)
BodyEnds(b, k, w, D, S) ==                          \* S: positions before b[k]
  IF k > Len(b) \/ S = {} THEN S
  ELSE LET T == IF IsTerm(b[k]) THEN {i + 1 : i \in {j \in S : j < Len(w) /\ w[j + 1] = b[k]}}
                ELSE {d[3] : d \in {e \in D : e[1] = b[k] /\ e[2] \in S}}
       IN  BodyEnds(b, k + 1, w, D, T)

RECURSIVE DeriveFix(_, _, _)
DeriveFix(g, w, D) ==
  LET E == D \cup UNION {UNION {{<<g.rules[r].h, i, j>> : j \in BodyEnds(g.rules[r].b, 1, w, D, {i})}
                                  : i \in 0..Len(w)} : r \in RuleIds(g)}
  IN  IF E = D THEN D ELSE DeriveFix(g, w, E)

Sentence(g, w) == <<g.start, 0, Len(w)>> \in DeriveFix(g, w, {})
=============================================================================
