------------------------------- MODULE MCCfsm -------------------------------
(***************************************************************************)
(* In whatever order symbols are looked at, the construction ends with the *)
(* canonical collection of Lr0, each state once, the start state first.    *)
(***************************************************************************)
EXTENDS CfsmMachine, FiniteSetsExt

CONSTANTS NumVars, NumTerms, MaxBody, MaxRules

Syms   == (1..NumVars) \cup {-k : k \in 1..NumTerms}
Bodies == UNION {[1..n -> Syms] : n \in 0..MaxBody}
Chosen == UNION {kSubset(n, Bodies) : n \in 1..MaxRules}
RuleSeq(v, B) == SetToSeq({[h |-> v, b |-> b] : b \in B})
Gram(f) == [start |-> 1, rules |-> FlattenSeq([v \in 1..NumVars |-> RuleSeq(v, f[v])])]

VARIABLES g, c
vars == <<g, c>>

Init == \E f \in [1..NumVars -> Chosen] : g = Gram(f) /\ c = CfsmReady(Gram(f))

Next == /\ \/ ~CfsmBusy(c) /\ c.wait # <<>> /\ c' = CfsmTake(g, c)
           \/ CfsmBusy(c) /\ \E X \in c.left : c' = CfsmSymbol(g, c, X)
           \/ CfsmBusy(c) /\ c.left = {} /\ c' = CfsmPut(c)
        /\ g' = g
Spec == Init /\ [][Next]_vars

Numbered == \A s, t \in Known(c) : s.id = t.id <=> s.items = t.items
Canonical ==
  CfsmFinished(c) =>
    LET C == Collection(g)
        By(n) == CHOOSE s \in c.done : s.id = n
    IN  /\ {s.items : s \in c.done} = C.states
        /\ {s.id : s \in c.done} = 0..c.next - 1
        /\ By(0).items = StartState(g)
        /\ UNION {{<<s.items, t[1], By(t[2]).items>> : t \in s.go} : s \in c.done} = C.trans
=============================================================================
