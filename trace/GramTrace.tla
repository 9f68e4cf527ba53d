----------------------------- MODULE GramTrace -----------------------------
(***************************************************************************)
(* Validates recorded executions of the real parser generator.  A trace is *)
(* one grammar: the builder calls, whether a grammar was built, the        *)
(* rendered state machine, whether a parser was constructed, and what it   *)
(* said about a number of inputs.                                          *)
(*                                                                         *)
(* Prop selects the property that is enforced; the phase is "void" if the  *)
(* property says nothing about the trace.                                  *)
(***************************************************************************)
EXTENDS Builder, TLC, Json, IOUtils

Prop   == IOEnv.VERIF_PROP
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
\* inputs shared by many traces: a trace with ws = n > 0 uses the n-th list
Inputs == JsonDeserialize(IOEnv.VERIF_WORDS)

VARIABLES tid, phase,
          g,        \* the grammar as the builder calls mean it
          T,        \* tables of the SLR(1) machine
          l         \* next input
vars == <<tid, phase, g, T, l>>

Tr == Traces[tid]
In == IF Tr.ws > 0 THEN Inputs[Tr.ws] ELSE Tr.inputs
NoGrammar == [start |-> 0, rules |-> <<>>]
NoTables  == [go |-> <<>>, ac |-> <<>>, slr |-> FALSE, n |-> 0]

Init == /\ tid \in 1..Len(Traces)
        /\ phase = "build"
        /\ g = NoGrammar /\ T = NoTables /\ l = 1

Cases == Prop \in {"C13", "C14", "C15", "C16"}   \* judged input by input

(* C10: built exactly if complete.  If the state machine was recorded, it   *)
(* has the rules that were added; the adding calls said which were new.    *)
RulesOk(B) ==
  LET R == Reachable(AsGrammar(B)) IN
  Tr.dotr # "skip" =>
    /\ Tr.dotr = "ok"
    /\ {[h |-> x.h, b |-> x.b] : x \in UNION {ToSet(Tr.nodes[i]) : i \in 1..Len(Tr.nodes)}} = {r \in B.rules : r.h \in R}
AddedOk ==
  LET A == Added(Tr.ops) IN
  Len(Tr.added) > 0 =>
    /\ Len(Tr.added) = Len(A)
    /\ \A i \in 1..Len(A) : A[i] = "?" \/ (A[i] = "new") = (Tr.added[i] = 1)

Build ==
  /\ phase = "build"
  /\ UNCHANGED <<tid, T, l>>
  /\ LET B  == Built(Tr.ops)
         ok == Buildable(B)
     IN  IF Prop = "C10"
         THEN /\ g' = NoGrammar
              /\ phase' = IF /\ Tr.dead = ""
                             /\ (Tr.build = "ok") = ok /\ Tr.build \in {"ok", "panic"}
                             /\ ok => RulesOk(B) /\ AddedOk
                          THEN "done" ELSE "bad"
         ELSE IF ~ok \/ (Tr.dead = "" /\ Tr.build # "ok") THEN g' = NoGrammar /\ phase' = "void"
         ELSE g' = AsGrammar(B) /\ phase' = CASE Prop = "C11" -> "machine" [] Prop = "C12" -> "decide" [] OTHER -> "tables"

---------------------------------------------------------------------------
(* C11: the rendered machine is the canonical collection.                  *)
Shown(I) == {[h |-> g.rules[it[1]].h, b |-> g.rules[it[1]].b, d |-> it[2]] : it \in I}

MachineOk ==
  LET C     == Collection(g)
      nodes == [i \in 1..Len(Tr.nodes) |-> ToSet(Tr.nodes[i])]
  IN  /\ Tr.dotr = "ok"
      /\ Len(Tr.nodes) = Cardinality(C.states)
      /\ ToSet(nodes) = {Shown(I) : I \in C.states}
      /\ \A i \in 1..Len(Tr.edges) : Tr.edges[i][1] \in 1..Len(nodes) /\ Tr.edges[i][3] \in 1..Len(nodes)
      /\ {<<nodes[Tr.edges[i][1]], Tr.edges[i][2], nodes[Tr.edges[i][3]]>> : i \in 1..Len(Tr.edges)}
           = {<<Shown(t[1]), t[2], Shown(t[3])>> : t \in C.trans}
      /\ Len(Tr.edges) = Cardinality(C.trans)
Machine ==
  /\ phase = "machine"
  /\ phase' = IF Tr.dead # "" THEN "bad" ELSE IF MachineOk THEN "done" ELSE "bad"
  /\ UNCHANGED <<tid, g, T, l>>

---------------------------------------------------------------------------
(* C12: a parser is constructed exactly for SLR(1) grammars.  Where rules  *)
(* of unreachable variables decide, the definitions of FOLLOW in use       *)
(* differ and the property is not taken to say anything.                   *)
Decide ==
  /\ phase = "decide"
  /\ UNCHANGED <<tid, g, T, l>>
  /\ LET r == IsSlr(g)
         q == IF Reachable(g) = Vars(g) THEN r ELSE IsSlr(Reduced(g))
     IN  phase' = IF r # q THEN "void"
                  ELSE IF Tr.dead = "" /\ Tr.slr \in {"ok", "panic"} /\ (Tr.slr = "ok") = r THEN "done"
                  ELSE "bad"

---------------------------------------------------------------------------
(* Terminals that the grammar writes with different payload are different  *)
(* symbols to its state machine.  C16 speaks about such grammars as long   *)
(* as no state has to tell them apart.                                     *)
RawBody(b) == SelectSeq(b, NotEps)
RawRules(c) == {[h |-> c.v, b |-> RawBody(c.bodies[i])] : i \in 1..Len(c.bodies)}
Raw == [start |-> g.start,
        rules |-> SetToSeq(UNION {RawRules(Tr.ops[i]) : i \in {j \in 1..Len(Tr.ops) : Tr.ops[j].op # "S"}})]
OneSpelling(I) ==
  LET S == {s \in NextSymbols(Raw, I) : IsTerm(s)} IN Cardinality({Kind(s) : s \in S}) = Cardinality(S)
RawOk == LET R == Raw IN Len(R.rules) = Len(g.rules) /\ \A I \in Collection(R).states : OneSpelling(I)

MakeTables ==
  /\ phase = "tables"
  /\ UNCHANGED <<tid, g, l>>
  /\ LET t == Tables(Extended(g))
     IN  /\ T' = t
         /\ phase' = IF Prop = "C14" /\ t.slr /\ Tr.dead = "" /\ Tr.slr # "ok" /\ AllProductive(g) /\ Reachable(g) = Vars(g)
                     THEN "bad"   \* no parser, hence nothing is accepted
                     ELSE IF ~t.slr \/ (Tr.dead = "" /\ Tr.slr # "ok") \/ (Prop = "C15" /\ ~AllProductive(g))
                        \/ (Prop = "C16" /\ ~RawOk)
                     THEN "void"
                     ELSE IF Tr.dead # "" THEN (IF AllProductive(g) /\ Prop \in {"C14", "C15"} THEN "bad" ELSE "void")
                     ELSE IF Len(Tr.res) # Len(In) THEN "bad" ELSE "parse"

W  == In[l]
KW == [i \in 1..Len(W) |-> Kind(W[i])]
V  == Tr.res[l].v
Tree == Tr.res[l].tree

(* Short inputs are judged by derivations as such, long ones by the        *)
(* machine, which is checked against derivations in mc/MCSlr.              *)
IsSentence == IF Len(W) <= 4 /\ Len(g.rules) <= 8 THEN Sentence(g, KW) ELSE MachineVerdict(Extended(g), T, KW) = "ok"

InputOk ==
  CASE Prop = "C13" -> V \in {"ok", "unreadable"} => V = "ok" /\ IsDerivation(g, W, Tree)
    [] Prop = "C14" -> IsSentence => V = "ok" /\ IsDerivation(g, W, Tree)
    [] Prop = "C15" -> V \in {"ok", "err", "unreadable"}
    [] Prop = "C16" -> IF IsSentence THEN V = "ok" /\ IsDerivation(g, W, Tree) ELSE V # "ok"

Parse ==
  /\ phase = "parse"
  /\ UNCHANGED <<tid, g, T>>
  /\ IF l > Len(In) THEN phase' = "done" /\ l' = l
     ELSE IF InputOk THEN phase' = "parse" /\ l' = l + 1
     ELSE phase' = "bad" /\ l' = l

Report == phase \in {"bad", "done", "void"} /\ PrintT(<<"VERDICT", tid, phase, l>>) /\ FALSE
          /\ UNCHANGED vars

Next == Build \/ Machine \/ Decide \/ MakeTables \/ Parse \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
