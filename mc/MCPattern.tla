----------------------------- MODULE MCPattern -----------------------------
(***************************************************************************)
(* Three ways to match a pattern give the same answers: the sets of        *)
(* positions of PatternLang, the machine of PatternMachine that judges the *)
(* implementation, and the automaton with counters the implementation      *)
(* uses.  All pairs of a small pattern and a short word.                   *)
(***************************************************************************)
EXTENDS PatternMachine

N == INSTANCE CountedNfa

CONSTANTS MaxWord, Level

Lit(c) == SetOf(FALSE, <<Rng(c, c)>>)
Rep(e, b) == [t |-> "rep", e |-> e, lo |-> b[1], hi |-> b[2]]
Cat(x, y) == [t |-> "cat", es |-> <<x, y>>]
Alt(x, y) == [t |-> "alt", l |-> x, r |-> y]

Bounds == {<<0, Inf>>, <<1, Inf>>, <<0, 1>>, <<2, 2>>, <<1, 2>>, <<2, Inf>>, <<0, 0>>, <<2, 1>>}

E0 == {Lit(97), Lit(98)}
E1 == E0 \cup {Cat(x, y) : x \in E0, y \in E0} \cup {Alt(x, y) : x \in E0, y \in E0}
         \cup {Rep(x, b) : x \in E0, b \in Bounds}
E2 == E1 \cup {Cat(x, y) : x \in E1, y \in E1} \cup {Alt(x, y) : x \in E1, y \in E1}
         \cup {Rep(x, b) : x \in E1, b \in Bounds}
\* repetitions of everything above, and pairs of repeated repetitions
R2 == {Rep(Rep(Lit(97), b), c) : b \in Bounds, c \in Bounds}
E3 == E2 \cup {Rep(x, b) : x \in E2, b \in Bounds}
         \cup {Cat(x, y) : x \in R2, y \in R2 \cup E1} \cup {Alt(x, y) : x \in R2, y \in R2 \cup E1}
         \cup {Cat(y, x) : x \in R2, y \in E1}

Patterns == {[t |-> "eps"]} \cup (IF Level = 2 THEN E2 ELSE E3)

VARIABLES e, w, A, R
vars == <<e, w, A, R>>

Init == /\ e \in Patterns
        /\ w = <<>>
        /\ A = N!Automaton(<<e>>)
        /\ R = N!Begin(A)

Next == /\ Len(w) < MaxWord
        /\ \E c \in {97, 98} :
              /\ w' = Append(w, c)
              /\ R' = N!Feed(A, R, c)
        /\ UNCHANGED <<e, A>>

Spec == Init /\ [][Next]_vars

Agree == LET m == Matches(e, w)
         IN  /\ MachineMatches(e, w) = m
             /\ (N!Finals(A, R) # {}) = m
LongestAgree == MachineLongest(e, w) = LongestFrom(e, w, 0)

(* Counts stay below their caps, so there are finitely many runs.          *)
Bounded == \A r \in R : \A q \in DOMAIN r.n : r.n[q] <= A.cap[q] /\ A.cnt[q] # {}
=============================================================================
