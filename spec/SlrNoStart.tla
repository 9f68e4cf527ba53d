----------------------------- MODULE SlrNoStart -----------------------------
(***************************************************************************)
(* SLR(1) parsing without a new start variable, as the implementation does *)
(* it: the state machine is that of the grammar itself.  Reducing a rule   *)
(* of the start variable in front of the end of the input accepts if       *)
(* nothing is left on the stack below, and is an ordinary reduction        *)
(* otherwise.  The state behind a complete start variable must not have an *)
(* action on the end of the input, because accepting would conflict with   *)
(* it.                                                                     *)
(*                                                                         *)
(* MCSlr checks that this constructs a parser for the same grammars as the *)
(* textbook construction (Lr0), with the same verdicts (LrMachine).        *)
(***************************************************************************)
EXTENDS LrMachine

\* an action is <<look-ahead, what, head, number of symbols, rule>>
PlainActions(g, I, L) ==
  {<<t, "shift", 0, 0, 0>> : t \in {s \in NextSymbols(g, I) : IsTerm(s)}}
    \cup UNION {LET r == g.rules[it[1]] IN
                {<<t, IF t = EndMark /\ r.h = g.start THEN "accept" ELSE "reduce",
                   r.h, Len(r.b), it[1]>> : t \in L[r.h]}
                  : it \in {x \in I : IsComplete(g, x)}}

PlainTables(g) ==
  LET C  == Collection(g)
      L  == FollowSets(g)
      s0 == StartState(g)
      st == <<s0>> \o SetToSeq(C.states \ {s0})
      nr == [I \in C.states |-> CHOOSE i \in 1..Len(st) : st[i] = I]
      A  == [i \in 1..Len(st) |-> PlainActions(g, st[i], L)]
      go == [i \in 1..Len(st) |-> [X \in NextSymbols(g, st[i]) |-> nr[GoTo(g, st[i], X)]]]
      behind == IF g.start \in DOMAIN go[1] THEN {go[1][g.start]} ELSE {}
  IN  [go |-> go,
       ac |-> [i \in 1..Len(st) |-> [t \in {a[1] : a \in A[i]} |-> CHOOSE a \in A[i] : a[1] = t]],
       ok |-> /\ \A i \in 1..Len(st) : NoConflict(A[i])
              /\ \A i \in behind : \A a \in A[i] : a[1] # EndMark]

(* m = [st |-> stack of states, sy |-> stack of symbols, i |-> tokens      *)
(* shifted, v |-> "run" | "ok" | "err", tree |-> nodes, last one first]    *)
PlainReady == [st |-> <<1>>, sy |-> <<>>, i |-> 0, v |-> "run", tree |-> <<>>]

PlainStep(g, T, m, w) ==
  LET q == m.st[Len(m.st)]
      t == IF m.i < Len(w) THEN w[m.i + 1] ELSE EndMark
  IN  IF t \notin DOMAIN T.ac[q] THEN [m EXCEPT !.v = "err"]
      ELSE LET a == T.ac[q][t]
               k == Len(m.st) - a[4]
               node == <<a[3], a[4]>>
      IN  IF a[2] = "shift"
          THEN [m EXCEPT !.st = Append(@, T.go[q][t]), !.sy = Append(@, t), !.i = @ + 1,
                         !.tree = <<<<t, 0>>>> \o @]
          ELSE IF a[2] = "accept" /\ k = 1
          THEN [m EXCEPT !.v = "ok", !.st = <<1>>, !.sy = <<a[3]>>, !.tree = <<node>> \o @]
          ELSE LET s == SubSeq(m.st, 1, k) IN
               IF a[3] \notin DOMAIN T.go[s[k]] THEN [m EXCEPT !.v = "err"]
               ELSE [m EXCEPT !.st = Append(s, T.go[s[k]][a[3]]),
                              !.sy = Append(SubSeq(@, 1, k - 1), a[3]),
                              !.tree = <<node>> \o @]
=============================================================================
