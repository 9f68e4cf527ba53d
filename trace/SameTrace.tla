----------------------------- MODULE SameTrace -----------------------------
(***************************************************************************)
(* Validates groups of recorded executions that have to agree.  A trace is *)
(* a sequence of runs: builder calls, state machine, parser and results as *)
(* in GramTrace.  All runs of a group mean the same grammar.               *)
(***************************************************************************)
EXTENDS Builder, TLC, Json, IOUtils

Prop   == IOEnv.VERIF_PROP
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)

VARIABLES tid, phase, l
vars == <<tid, phase, l>>
Tr == Traces[tid]

Init == tid \in 1..Len(Traces) /\ phase = "meaning" /\ l = 2

(* All runs are calls that mean the same complete grammar.                 *)
Meaning ==
  /\ phase = "meaning"
  /\ UNCHANGED <<tid, l>>
  /\ LET B == Built(Tr[1].ops)
     IN  phase' = IF /\ Buildable(B)
                     /\ \A i \in 2..Len(Tr) : Built(Tr[i].ops) = B
                     /\ (\A i \in 1..Len(Tr) : Tr[i].dead = "") \/ AllProductive(AsGrammar(B))
                  THEN "compare" ELSE "void"

Edges(r) ==
  LET nodes == [i \in 1..Len(r.nodes) |-> ToSet(r.nodes[i])]
  IN  {<<nodes[r.edges[i][1]], r.edges[i][2], nodes[r.edges[i][3]]>> : i \in 1..Len(r.edges)}
SameMachine(a, b) ==
  /\ a.dotr = b.dotr
  /\ Len(a.nodes) = Len(b.nodes)
  /\ {ToSet(n) : n \in ToSet(a.nodes)} = {ToSet(n) : n \in ToSet(b.nodes)}
  /\ Len(a.edges) = Len(b.edges)
  /\ Edges(a) = Edges(b)

NoEpsNode(r) == \A i \in 1..Len(r.res) : \A j \in 1..Len(r.res[i].tree) : r.res[i].tree[j][1] # 0

(* Equal inputs to one parser have equal results, whatever came between.    *)
Repeats(r) == \A i \in 1..Len(r.res) : r.res[i] = r.res[r.same[i]]

Same(a, b) ==
  /\ a.dead = b.dead
  /\ a.build = b.build
  /\ a.slr = b.slr
  /\ a.res = b.res
  /\ Prop \in {"C10", "C17"} => SameMachine(a, b)
  /\ Prop = "C17" => Repeats(a) /\ Repeats(b)
  /\ Prop = "C20" => NoEpsNode(a) /\ NoEpsNode(b)

Compare ==
  /\ phase = "compare"
  /\ UNCHANGED tid
  /\ IF l > Len(Tr) THEN phase' = "done" /\ l' = l
     ELSE IF Same(Tr[1], Tr[l]) THEN phase' = "compare" /\ l' = l + 1
     ELSE phase' = "bad" /\ l' = l

Report == phase \in {"bad", "done", "void"} /\ PrintT(<<"VERDICT", tid, phase, l>>) /\ FALSE
          /\ UNCHANGED vars

Next == Meaning \/ Compare \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
