------------------------------ MODULE UniTrace ------------------------------
(***************************************************************************)
(* Validates the set of all Unicode scalar values that a one-character     *)
(* pattern of the real lexer matches (C04).  The set was recorded as a     *)
(* sequence of intervals (the surrogate gap does not split an interval).   *)
(*                                                                         *)
(* Both the recorded and the specified set are constant between two        *)
(* neighbouring interval boundaries, so comparing them at the boundaries   *)
(* compares them everywhere.                                               *)
(***************************************************************************)
EXTENDS PatternLang, TLC, Json, IOUtils

Prop   == IOEnv.VERIF_PROP
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)

VARIABLES tid, phase, at
vars == <<tid, phase, at>>

Tr == Traces[tid]

Bounds(rs) == UNION {{rs[i][1], rs[i][2] + 1} : i \in 1..Len(rs)}
ClassBounds(k) == CASE k \in {119, 87} -> Bounds(AlphaRanges)
                    [] k \in {115, 83} -> Bounds(SpaceRanges)
                    [] k \in {100, 68} -> Bounds(DigitRanges)
                    [] OTHER -> {}
ItemBounds(it) == IF it.k = "rng" THEN {it.a, it.b + 1} ELSE ClassBounds(it.a)
Breaks(e) ==
  LET B == {0, 57344} \cup Bounds(Tr.set)
             \cup UNION {ItemBounds(e.items[i]) : i \in 1..Len(e.items)}
  IN  {c \in B : IsScalar(c)} \cup {57344}

RECURSIVE Search(_, _, _)
Search(c, lo, hi) ==
  IF lo > hi THEN FALSE
  ELSE LET mid == (lo + hi) \div 2
           r   == Tr.set[mid]
       IN  IF c < r[1] THEN Search(c, lo, mid - 1)
           ELSE IF c > r[2] THEN Search(c, mid + 1, hi)
           ELSE TRUE
Recorded(c) == Search(c, 1, Len(Tr.set))

Init == tid \in 1..Len(Traces) /\ phase = "run" /\ at = 0

Judge ==
  /\ phase = "run"
  /\ UNCHANGED tid
  /\ LET r == Parse(Tr.pat) IN
     IF ~r.ok \/ Tr.r # "ok"
     THEN /\ at' = -1
          /\ phase' = IF Tr.r = "ok" THEN "bad" ELSE IF r.ok THEN "bad" ELSE "void"
     ELSE IF r.ast.t # "set" THEN phase' = "void" /\ at' = -1
     ELSE LET Wrong == {c \in Breaks(r.ast) : Recorded(c) # InSet(r.ast, c)}
          IN  IF Wrong = {} THEN phase' = "done" /\ at' = Cardinality(Breaks(r.ast))
              ELSE phase' = "bad" /\ at' = SetMin(Wrong)

Report == phase # "run" /\ PrintT(<<"VERDICT", tid, phase, at>>) /\ FALSE /\ UNCHANGED vars

Next == Judge \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
