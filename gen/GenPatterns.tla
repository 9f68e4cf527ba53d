----------------------------- MODULE GenPatterns -----------------------------
(***************************************************************************)
(* Enumerates all patterns of up to MaxLen tokens over a small alphabet of *)
(* token spellings, as test cases for the implementation.  The states are  *)
(* the sequences of spellings that can still become a pattern; each one    *)
(* that already is a pattern is printed.                                   *)
(***************************************************************************)
EXTENDS PatternSyntax, TLC, Json, IOUtils

Spellings == JsonDeserialize(IOEnv.VERIF_SPELLINGS)   \* sequences of characters
MaxLen    == atoi(IOEnv.VERIF_MAXLEN)
Wanted    == JsonDeserialize(IOEnv.VERIF_WANTED)      \* at least one of these, unless empty

VARIABLE s        \* indices of the chosen spellings
vars == s

RECURSIVE Flatten(_, _)
Flatten(x, i) == IF i > Len(x) THEN <<>> ELSE Spellings[x[i]] \o Flatten(x, i + 1)
Text(x) == Flatten(x, 1)

RECURSIVE Depth(_, _, _)
Depth(x, i, d) ==
  IF i > Len(x) THEN d
  ELSE LET c == Spellings[x[i]] IN
       Depth(x, i + 1, IF c = <<40>> THEN d + 1 ELSE IF c = <<41>> THEN d - 1 ELSE d)

Viable(x) == LET d == Depth(x, 1, 0) IN d >= 0 /\ Len(x) + d <= MaxLen

Interesting(x) == Len(Wanted) = 0 \/ \E i \in 1..Len(x) : \E j \in 1..Len(Wanted) : x[i] = Wanted[j]

Init == s = <<>>
Extend == /\ Len(s) < MaxLen
          /\ \E k \in 1..Len(Spellings) : s' = Append(s, k) /\ Viable(s')
Emit   == /\ Interesting(s) /\ Accepts(Text(s))
          /\ PrintT(<<"PATTERN", s>>) /\ FALSE /\ UNCHANGED vars
Next == Extend \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
