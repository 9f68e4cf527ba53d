----------------------------- MODULE RegexTrace -----------------------------
(***************************************************************************)
(* Validates the first call of real lexers with a single pattern, for many *)
(* words at once (C01, C02, C04).  res[i] is the number of characters of the    *)
(* token returned for words[i], 0 if none was returned, negative for       *)
(* anything that no lexer may do.                                          *)
(***************************************************************************)
EXTENDS PatternMachine, SyntaxMachine, TLC, Json, IOUtils

Prop  == IOEnv.VERIF_PROP
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
Words == JsonDeserialize(IOEnv.VERIF_WORDS)         \* word lists used by the traces

VARIABLES tid, phase, at
vars == <<tid, phase, at>>

Tr == Traces[tid]
Ws == IF Tr.ws = 0 THEN Tr.words ELSE Words[Tr.ws]

(* Long words and deep patterns are left to the equivalent machine.        *)
Longest(e, w) == IF Tr.deep = 1 THEN MachineLongest(e, w) ELSE LongestFrom(e, w, 0)

Init == tid \in 1..Len(Traces) /\ phase = "run" /\ at = 0

Judge ==
  /\ phase = "run"
  /\ UNCHANGED tid
  /\ LET r == IF Tr.deep = 1 THEN MachineParse(Tr.pat) ELSE Parse(Tr.pat) IN
     IF Tr.add # "ok" \/ ~r.ok
     THEN /\ at' = 0
          /\ phase' = IF Prop \in {"C02", "C04"} /\ Tr.dead = "" /\ (Tr.add = "ok") # r.ok THEN "bad" ELSE "void"
     ELSE LET Wrong == {i \in 1..Len(Ws) :
                          i > Len(Tr.res) \/ Tr.res[i] # Longest(r.ast, Ws[i])}
          IN  IF Wrong = {} THEN phase' = "done" /\ at' = 0
              ELSE phase' = "bad" /\ at' = SetMin(Wrong)

Report == phase # "run" /\ PrintT(<<"VERDICT", tid, phase, at>>) /\ FALSE /\ UNCHANGED vars

Next == Judge \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
