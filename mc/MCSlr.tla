------------------------------- MODULE MCSlr -------------------------------
(***************************************************************************)
(* Shift-reduce parsing is right: for all small grammars, the construction *)
(* without a new start variable succeeds exactly for SLR(1) grammars, and  *)
(* its machine, step by step, decides membership, halts, and leaves a      *)
(* derivation behind.  The textbook machine has the same verdicts.         *)
(***************************************************************************)
EXTENDS SlrNoStart, FiniteSetsExt

CONSTANTS NumVars, NumTerms, MaxBody, MaxRules, MaxWord

Syms   == (1..NumVars) \cup {-k : k \in 1..NumTerms}
Bodies == UNION {[1..n -> Syms] : n \in 0..MaxBody}
Chosen == UNION {kSubset(n, Bodies) : n \in 1..MaxRules}
RuleSeq(v, B) == SetToSeq({[h |-> v, b |-> b] : b \in B})
Gram(f) == [start |-> 1, rules |-> FlattenSeq([v \in 1..NumVars |-> RuleSeq(v, f[v])])]
Words == UNION {[1..n -> {-k : k \in 1..NumTerms}] : n \in 0..MaxWord}

None == <<>>

VARIABLES phase,    \* "pick", "grammar", "parse"
          f,        \* chosen bodies
          g, T, w, m, steps
vars == <<phase, f, g, T, w, m, steps>>

Init == /\ phase = "pick" /\ f \in [1..NumVars -> Chosen]
        /\ g = None /\ T = None /\ w = None /\ m = None /\ steps = 0

Pick == /\ phase = "pick"
        /\ LET h == Gram(f) IN
           /\ Reachable(h) = 1..NumVars /\ Complete(h)
           /\ phase' = "grammar" /\ g' = h /\ T' = PlainTables(h)
        /\ UNCHANGED <<f, w, m, steps>>

Begin == /\ phase = "grammar" /\ T.ok /\ AllProductive(g)
         /\ w' \in Words /\ m' = PlainReady /\ phase' = "parse"
         /\ UNCHANGED <<f, g, T, steps>>

Step == /\ phase = "parse" /\ m.v = "run"
        /\ m' = PlainStep(g, T, m, w) /\ steps' = steps + 1
        /\ UNCHANGED <<phase, f, g, T, w>>

Next == Pick \/ Begin \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

(* A parser exists exactly for SLR(1) grammars.                            *)
SameGrammars == phase = "grammar" => T.ok = IsSlr(g)

(* The stack always derives what has been shifted: the nodes so far, read  *)
(* backwards, are a run of the shift-reduce machine with this stack.       *)
Raw(t) == IF t < 0 THEN -(1 + (-t - 1) * 256) ELSE t      \* a token without payload
RawWord == [i \in 1..Len(w) |-> Raw(w[i])]
RawTree == [i \in 1..Len(m.tree) |-> <<Raw(m.tree[i][1]), m.tree[i][2]>>]
StackDerives ==
  phase = "parse" =>
    LET Op(x, n) == RunNode(ToSet(g.rules), RawWord, x, n)
        end == FoldLeft(Op, [st |-> <<>>, i |-> 0, ok |-> TRUE], Reverse(RawTree))
    IN  end.ok /\ end.i = m.i /\ AtLeast(end.st, Len(m.sy)) /\ Topmost(end.st, Len(m.sy)) = m.sy /\ ~AtLeast(end.st, Len(m.sy) + 1)

(* Verdicts.                                                               *)
Decides == phase = "parse" /\ m.v # "run" => (m.v = "ok") = Sentence(g, w)
Trees   == phase = "parse" /\ m.v = "ok" => IsDerivation(g, RawWord, RawTree)
Textbook == phase = "parse" /\ m.v # "run" =>
  LET x == Extended(g) IN MachineVerdict(x, Tables(x), w) = m.v

(* The machine halts: no more than a number of steps per token.            *)
Halts == phase = "parse" => steps <= (Len(w) + 1) * (2 * Len(g.rules) + 2) * (1 + MaxBody)
Halted == phase = "parse" /\ m.v # "run"
Halting == (phase = "parse") ~> Halted
=============================================================================
