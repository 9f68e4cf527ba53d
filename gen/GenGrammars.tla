---------------------------- MODULE GenGrammars ----------------------------
(***************************************************************************)
(* Enumerates all small grammars as test cases for the implementation:     *)
(* NumVars variables, NumTerms terminals, bodies of up to MaxBody symbols, *)
(* up to MaxRules rules per variable.  Only complete grammars all whose    *)
(* variables are reachable are printed, with the information whether all   *)
(* variables are productive.                                               *)
(***************************************************************************)
EXTENDS Builder, TLC, Json, IOUtils

NumVars  == atoi(IOEnv.VERIF_VARS)
NumTerms == atoi(IOEnv.VERIF_TERMS)
MaxBody  == atoi(IOEnv.VERIF_BODY)
MaxRules == atoi(IOEnv.VERIF_RULES)

Syms   == (1..NumVars) \cup {-k : k \in 1..NumTerms}
Bodies == SetToSeq(UNION {[1..n -> Syms] : n \in 0..MaxBody})
NB     == Len(Bodies)

VARIABLES v,      \* variable that gets rules now
          rs      \* rs[u]: increasing sequence of indices into Bodies
vars == <<v, rs>>

Init == v = 1 /\ rs = [u \in 1..NumVars |-> <<>>]

AddRule ==
  /\ v <= NumVars /\ Len(rs[v]) < MaxRules
  /\ \E k \in (IF Len(rs[v]) = 0 THEN 0 ELSE rs[v][Len(rs[v])]) + 1..NB :
        rs' = [rs EXCEPT ![v] = Append(@, k)]
  /\ v' = v
NextVar == v <= NumVars /\ Len(rs[v]) > 0 /\ v' = v + 1 /\ rs' = rs

RulesOfVar(u) == [i \in 1..Len(rs[u]) |-> [h |-> u, b |-> Bodies[rs[u][i]]]]
Gram == [start |-> 1, rules |-> FlattenSeq([u \in 1..NumVars |-> RulesOfVar(u)])]

Emit ==
  /\ v = NumVars + 1
  /\ LET g == Gram IN
     /\ Reachable(g) = 1..NumVars
     /\ Complete(g)
     /\ PrintT(<<"GRAMMAR", IF AllProductive(g) THEN 1 ELSE 0, rs>>)
  /\ FALSE /\ UNCHANGED vars

(* The numbering of bodies.                                                *)
Legend == v = 1 /\ rs[1] = <<>> /\ PrintT(<<"BODIES", ToJson(Bodies)>>) /\ FALSE /\ UNCHANGED vars

Next == AddRule \/ NextVar \/ Emit \/ Legend
Spec == Init /\ [][Next]_vars
=============================================================================
