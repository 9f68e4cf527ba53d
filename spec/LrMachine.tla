------------------------------ MODULE LrMachine ------------------------------
(***************************************************************************)
(* Shift-reduce parsing.                                                   *)
(*                                                                         *)
(* The nondeterministic machine has a stack of symbols: it may shift the   *)
(* next token at any time, and reduce whenever the top of the stack is the *)
(* body of a rule.  It accepts with the start variable alone on the stack  *)
(* and the input used up.  Its accepting runs are exactly the derivations  *)
(* of the input.                                                           *)
(*                                                                         *)
(* The SLR(1) machine is a strategy for it: it keeps a stack of states and *)
(* lets the state on top and the next token decide.                        *)
(***************************************************************************)
EXTENDS Lr0

(* A stack is empty, <<>>, or <<top, rest>>: the inputs of recorded        *)
(* executions are too long for copying a sequence with every step.         *)
PushOn(s, x) == <<x, s>>
RECURSIVE PopFrom(_, _)
PopFrom(s, n) == IF n = 0 THEN s ELSE PopFrom(s[2], n - 1)
RECURSIVE AtLeast(_, _)
AtLeast(s, n) == n = 0 \/ (s # <<>> /\ AtLeast(s[2], n - 1))
RECURSIVE Topmost(_, _)     \* the n topmost, the top last
Topmost(s, n) == IF n = 0 THEN <<>> ELSE Append(Topmost(s[2], n - 1), s[1])

(* A tree is the sequence of its nodes <<label, number of children>>,      *)
(* written down so that each node comes before its children and children   *)
(* from right to left.  Backwards, this is a run of the machine: a leaf is *)
(* a shift, an inner node a reduction.                                     *)
(* m = [st |-> stack of symbols, i |-> tokens shifted, ok]                 *)
Kind(t) == IF t < 0 THEN -(1 + ((-t - 1) \div 256)) ELSE t   \* forgets payload

RunNode(RuleSet, w, m, n) ==
  IF ~m.ok THEN m
  ELSE IF n[1] < 0
  THEN IF n[2] = 0 /\ m.i < Len(w) /\ w[m.i + 1] = n[1]
       THEN [m EXCEPT !.st = PushOn(@, Kind(n[1])), !.i = @ + 1]
       ELSE [m EXCEPT !.ok = FALSE]
  ELSE IF n[1] > 0 /\ n[2] >= 0 /\ AtLeast(m.st, n[2]) /\ [h |-> n[1], b |-> Topmost(m.st, n[2])] \in RuleSet
       THEN [m EXCEPT !.st = PushOn(PopFrom(@, n[2]), n[1])]
       ELSE [m EXCEPT !.ok = FALSE]

(* Is the tree a derivation of the tokens w?                               *)
IsDerivation(g, w, tree) ==
  LET RS  == ToSet(g.rules)
      Op(m, n) == RunNode(RS, w, m, n)
      end == FoldLeft(Op, [st |-> <<>>, i |-> 0, ok |-> TRUE], Reverse(tree))
  IN  end.ok /\ end.st = PushOn(<<>>, g.start) /\ end.i = Len(w)

---------------------------------------------------------------------------
(* Tables of the SLR(1) machine for an extended grammar x: the states are  *)
(* numbered (1 is the start state).                                        *)
Tables(x) ==
  LET C  == Collection(x)
      L  == FollowSets(x)
      st == <<StartState(x)>> \o SetToSeq(C.states \ {StartState(x)})
      nr == [I \in C.states |-> CHOOSE i \in 1..Len(st) : st[i] = I]
      go == [i \in 1..Len(st) |->
               [X \in NextSymbols(x, st[i]) |-> nr[GoTo(x, st[i], X)]]]
      ac == [i \in 1..Len(st) |->
               LET A == Actions(x, st[i], L)
               IN  [t \in {a[1] : a \in A} |-> CHOOSE a \in A : a[1] = t]]
  IN  [go |-> go, ac |-> ac, slr |-> SlrStates(x, C, L), n |-> Len(st)]

(* One step on the token t: it is shifted or refused, or a reduction is    *)
(* made and the token is still there.                                      *)
(* m = [st |-> stack of states, v |-> "run" | "ok" | "err",                *)
(*      there |-> is the token still there?]                               *)
TokenStep(x, T, m, t) ==
  LET q == m.st[1] IN
  IF ~m.there THEN m
  ELSE IF t \notin DOMAIN T.ac[q] THEN [m EXCEPT !.v = "err", !.there = FALSE]
  ELSE LET a == T.ac[q][t] IN
    IF a[2] = "shift" THEN [m EXCEPT !.st = PushOn(@, T.go[q][t]), !.there = FALSE]
    ELSE IF x.rules[a[3]].h = x.start THEN [m EXCEPT !.v = "ok", !.there = FALSE]
    ELSE LET s == PopFrom(m.st, Len(x.rules[a[3]].b))
         IN  [m EXCEPT !.st = PushOn(s, T.go[s[1]][x.rules[a[3]].h])]

(* Steps until the token is gone: n of them, twice as many, ...            *)
RECURSIVE Consume(_, _, _, _, _)
Consume(x, T, m, t, n) ==
  LET Op(c, i) == TokenStep(x, T, c, t)
      r == FoldLeft(Op, m, [i \in 1..n |-> i])
  IN  IF r.there THEN Consume(x, T, r, t, 2 * n) ELSE r

(* The verdict on a sequence of token kinds.                               *)
MachineVerdict(x, T, w) ==
  LET Op(m, t) == IF m.v = "run" THEN Consume(x, T, [m EXCEPT !.there = TRUE], t, 4) ELSE m
  IN  FoldLeft(Op, [st |-> PushOn(<<>>, 1), v |-> "run", there |-> FALSE], Append(w, EndMark)).v
=============================================================================
