---------------------------- MODULE MCWorkLists ----------------------------
(***************************************************************************)
(* In whatever order the work is done, FIRST and FOLLOW come out as the    *)
(* least fixed points of Cfg.  All small grammars, all orders.             *)
(***************************************************************************)
EXTENDS WorkLists, FiniteSetsExt

CONSTANTS NumVars, NumTerms, MaxBody, MaxRules

Syms   == (1..NumVars) \cup {-k : k \in 1..NumTerms}
Bodies == UNION {[1..n -> Syms] : n \in 0..MaxBody}
Chosen == UNION {kSubset(n, Bodies) : n \in 1..MaxRules}
RuleSeq(v, B) == SetToSeq({[h |-> v, b |-> b] : b \in B})
Gram(f) == [start |-> 1, rules |-> FlattenSeq([v \in 1..NumVars |-> RuleSeq(v, f[v])])]

VARIABLES phase, f, g, s, goal
vars == <<phase, f, g, s, goal>>

Init == /\ phase = "pick" /\ f \in [1..NumVars -> Chosen]
        /\ g = <<>> /\ s = <<>> /\ goal = <<>>

Ask == /\ phase = "pick"
       /\ LET h == Gram(f) IN
          /\ Reachable(h) = 1..NumVars
          /\ g' = h
          /\ \/ \E r \in RuleIds(h) : \E i \in 1..Len(h.rules[r].b) :
                   /\ phase' = "first" /\ s' = FirstReady(h, r, i)
                   /\ goal' = FirstGoal(h, r, i)
             \/ /\ phase' = "follow" /\ s' = FollowReady(h) /\ goal' = FollowSets(h)
       /\ f' = f

Work == /\ phase \in {"first", "follow"}
        /\ \E job \in s.todo :
             s' = IF phase = "first" THEN FirstStep(g, s, job) ELSE FollowStep(g, s, job)
        /\ UNCHANGED <<phase, f, g, goal>>

Next == Ask \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

Right == /\ phase = "first" /\ s.todo = {} => s.first[0] = goal
         /\ phase = "follow" /\ s.todo = {} => s.follow = goal
Sound == /\ phase = "first" => s.first[0] \subseteq goal
         /\ phase = "follow" => \A v \in DOMAIN goal : s.follow[v] \subseteq goal[v]
Working == phase \in {"first", "follow"}
Done == Working /\ s.todo = {}
Halting == Working ~> Done
=============================================================================
