------------------------------ MODULE LexTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of the real lexer.  Each trace is one     *)
(* lexer: the builder calls with their results, followed by successive     *)
(* calls of the iterator with their results.                               *)
(*                                                                         *)
(* Prop selects the property whose demands are enforced; a trace stops     *)
(* being judged (phase "void") where the property says nothing about it.   *)
(* Matching is decided by PatternMachine, which copes with long inputs.    *)
(***************************************************************************)
EXTENDS PatternMachine, SyntaxMachine, TLC, Json, IOUtils

Prop  == IOEnv.VERIF_PROP
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)

VARIABLES tid,      \* which trace
          phase,    \* "declare", "lex", "done", "void", "bad"
          es,       \* the declared patterns
          l,        \* next event
          p,        \* position after the tokens seen so far (by their texts)
          ended     \* has the end of the stream been reported?

vars == <<tid, phase, es, l, p, ended>>

Tr  == Traces[tid]
W   == Tr.inp
Evs == Tr.evs

Init == /\ tid \in 1..Len(Traces)
        /\ phase = "declare"
        /\ es = <<>>
        /\ l = 1
        /\ p = 0
        /\ ended = FALSE

AllAdded == /\ Len(Tr.adds) = Len(Tr.pats)
            /\ \A i \in 1..Len(Tr.adds) : Tr.adds[i].r = "ok"

---------------------------------------------------------------------------
(* Builder calls.                                                          *)

(* C03: a pattern is added exactly if the grammar accepts it.  The calls   *)
(* stop at the first pattern that is not added.  Long patterns are left to *)
(* the equivalent machine.                                                 *)
Accepted(pat) == IF Len(pat) <= 60 THEN Accepts(pat) ELSE MachineAccepts(pat)
SyntaxOk ==
  /\ Tr.dead = "" \/ AllAdded
  /\ \A i \in 1..Len(Tr.adds) :
        IF Accepted(Tr.pats[i]) THEN Tr.adds[i].r = "ok" ELSE Tr.adds[i].r = "err"

(* C19: every message of a rejection has a span inside the pattern.        *)
ErrorsOk ==
  \A i \in 1..Len(Tr.adds) :
     Tr.adds[i].r = "err" =>
        /\ Len(Tr.adds[i].spans) > 0
        /\ \A j \in 1..Len(Tr.adds[i].spans) :
              GoodSpan(Tr.pats[i], Tr.adds[i].spans[j][1], Tr.adds[i].spans[j][2])

DeclareOk == CASE Prop = "C03" -> SyntaxOk
               [] Prop = "C02" -> SyntaxOk
               [] Prop = "C04" -> SyntaxOk
               [] Prop = "C19" -> ErrorsOk
               [] OTHER -> TRUE

OnlySyntax == Prop \in {"C03", "C19"}

Declare ==
  /\ phase = "declare"
  /\ UNCHANGED <<tid, l, p, ended>>
  /\ LET rs == [i \in 1..Len(Tr.pats) |-> IF Len(Tr.pats[i]) <= 60 THEN Parse(Tr.pats[i]) ELSE MachineParse(Tr.pats[i])]
     IN  IF ~DeclareOk THEN phase' = "bad" /\ es' = <<>>
         ELSE IF OnlySyntax THEN phase' = "done" /\ es' = <<>>
         ELSE IF ~AllAdded \/ \E i \in 1..Len(rs) : ~rs[i].ok
              THEN phase' = "void" /\ es' = <<>>
         ELSE phase' = "lex" /\ es' = [i \in 1..Len(rs) |-> rs[i].ast]

---------------------------------------------------------------------------
(* Calls of the iterator.                                                  *)

Ev == Evs[l]
IsTok == Ev.t = "tok"
IsNone == Ev.t = "none"

TextHere == p + Len(Ev.src) <= Len(W) /\ Ev.src = Slice(W, p, p + Len(Ev.src))

FirstOk == LET n == MachineMunch(es, W, 0) IN            \* C01, C02
           IF n = 0 THEN IsNone ELSE IsTok /\ Ev.src = Slice(W, 0, n)

MunchOk == LET n == MachineMunch(es, W, p) IN            \* C05
           n > 0 => IsTok /\ Len(Ev.src) = n

KindOk == IsTok =>                                   \* C06
  /\ Ev.k \in 1..Len(es)
  /\ Ev.k = MachineKind(es, Ev.src)
  /\ Ev.m = IF Tr.modes[Ev.k] = 2 THEN Ev.src ELSE <<-1>>

TileOk == IsTok =>                                   \* C07
  Len(Ev.src) > 0 /\ Ev.s = p /\ Ev.e = p + Len(Ev.src) /\ TextHere

EndOk == /\ IsTok \/ IsNone                          \* C08
         /\ ended => IsNone
         /\ IsNone <=> MachineMunch(es, W, p) = 0

ReturnOk == IsTok \/ IsNone                          \* C09

(* C04: sequences of one-character patterns, every token is one character  *)
(* of its pattern's set.                                                   *)
EventOk == CASE Prop \in {"C01", "C02", "C04"} -> FirstOk
             [] Prop = "C05" -> MunchOk
             [] Prop = "C06" -> KindOk
             [] Prop = "C07" -> TileOk
             [] Prop = "C08" -> EndOk
             [] Prop = "C09" -> ReturnOk

(* Does the property go on judging after this event?                       *)
Continues ==
  CASE Prop \in {"C01", "C02", "C04"} -> FALSE
    [] Prop \in {"C05", "C08"} -> IF IsTok THEN TextHere ELSE IsNone
    [] OTHER -> IsTok \/ IsNone

Emit ==
  /\ phase = "lex" /\ l <= Len(Evs) /\ EventOk
  /\ UNCHANGED <<tid, es>>
  /\ l' = l + 1
  /\ p' = IF IsTok THEN p + Len(Ev.src) ELSE p
  /\ ended' = (ended \/ IsNone)
  /\ phase' = IF Continues THEN "lex"
              ELSE IF Prop \in {"C01", "C02", "C04"} THEN "done" ELSE "void"

(* The recorder always makes at least one call after the end of the stream *)
(* was reported, so a trace without such an event has been cut off.        *)
Finish ==
  /\ phase = "lex" /\ l > Len(Evs)
  /\ phase' = IF Tr.dead # "" /\ Prop \in {"C01", "C02", "C04", "C05", "C08", "C09"}
              THEN "bad" ELSE "done"
  /\ UNCHANGED <<tid, es, l, p, ended>>

Reject ==
  /\ phase = "lex" /\ l <= Len(Evs) /\ ~EventOk
  /\ phase' = "bad"
  /\ UNCHANGED <<tid, es, l, p, ended>>

Report == phase \in {"bad", "done", "void"} /\ PrintT(<<"VERDICT", tid, phase, l>>) /\ FALSE
          /\ UNCHANGED vars

Next == Declare \/ Emit \/ Finish \/ Reject \/ Report

Spec == Init /\ [][Next]_vars
=============================================================================
