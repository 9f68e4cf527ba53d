----------------------------- MODULE PipeTrace -----------------------------
(***************************************************************************)
(* Validates recorded executions of a real lexer in front of a real parser *)
(* (C18).  For inputs that were put together from tokens, the trace also   *)
(* has what a parser of the same grammar said about these tokens when they *)
(* came one by one, as single characters.                                  *)
(***************************************************************************)
EXTENDS Pipeline, TLC, Json, IOUtils

Prop   == IOEnv.VERIF_PROP
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)

VARIABLES tid, phase, es, l
vars == <<tid, phase, es, l>>
Tr == Traces[tid]

Init == tid \in 1..Len(Traces) /\ phase = "declare" /\ es = <<>> /\ l = 1

Declare ==
  /\ phase = "declare"
  /\ UNCHANGED <<tid, l>>
  /\ LET B  == Built(Tr.ops)
         rs == [i \in 1..Len(Tr.pats) |-> Lx!Parse(Tr.pats[i])]
     IN  IF \/ ~Buildable(B)
            \/ ~AllProductive(AsGrammar(B))
            \/ \E i \in 1..Len(rs) : ~rs[i].ok
            \/ Tr.dead = "" /\ Tr.slr # "ok"
         THEN phase' = "void" /\ es' = <<>>
         ELSE IF Tr.dead # "" THEN phase' = "bad" /\ es' = <<>>
         ELSE phase' = "parse" /\ es' = [i \in 1..Len(rs) |-> rs[i].ast]

W == Tr.inputs[l].text
V == Tr.res[l].v
InputOk ==
  LET m  == LexAll(es, Tr.kinds, W)
      ts == Rest(m, Tr.inputs[l].skip)
  IN  V # "nolexer" =>
      IF Unlexable(W, m) THEN V = "err"
      ELSE \* only the tokens count
           Tr.inputs[l].ref = 1 /\ [i \in 1..Len(ts) |-> Kind(ts[i])] = Tr.inputs[l].kinds
             => V = Tr.inputs[l].v

Parse ==
  /\ phase = "parse"
  /\ UNCHANGED <<tid, es>>
  /\ IF l > Len(Tr.inputs) THEN phase' = "done" /\ l' = l
     ELSE IF InputOk THEN phase' = "parse" /\ l' = l + 1
     ELSE phase' = "bad" /\ l' = l

Report == phase \in {"bad", "done", "void"} /\ PrintT(<<"VERDICT", tid, phase, l>>) /\ FALSE
          /\ UNCHANGED vars

Next == Declare \/ Parse \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
