------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The grammar builder.  A call is one of                                  *)
(*   [op |-> "S", v, bodies |-> <<>>]     set the start variable           *)
(*   [op |-> "R", v, bodies |-> <<b>>]    add a rule                       *)
(*   [op |-> "M", v, bodies]              add several rules                *)
(* Bodies as written by the user may contain the empty-string symbol 0 and *)
(* terminals with payload.                                                 *)
(***************************************************************************)
EXTENDS LrMachine

(* What a written body means.                                              *)
NotEps(s) == s # 0
PlainBody(b) == LET c == SelectSeq(b, NotEps) IN [i \in 1..Len(c) |-> Kind(c[i])]

EmptyBuilder == [start |-> 0, rules |-> {}]
Call(B, c) ==
  IF c.op = "S" THEN [B EXCEPT !.start = c.v]
  ELSE [B EXCEPT !.rules = @ \cup {[h |-> c.v, b |-> PlainBody(c.bodies[i])] : i \in 1..Len(c.bodies)}]

Built(ops) == FoldLeft(Call, EmptyBuilder, ops)

(* Which of the single rules were new?  "?" where this depends on whether   *)
(* bodies are compared as written or as meant.                             *)
RawRule(c, i) == [h |-> c.v, b |-> IF c.bodies[i] = <<>> THEN <<0>> ELSE c.bodies[i]]
Added(ops) ==
  LET Op(r, c) ==
        LET new == {RawRule(c, i) : i \in 1..Len(c.bodies)}
            pl  == {[h |-> x.h, b |-> PlainBody(x.b)] : x \in new}
            a   == \E x \in new : x \notin r.raw
            p   == \E x \in pl : x \notin r.plain
        IN  [raw |-> r.raw \cup new, plain |-> r.plain \cup pl,
             out |-> IF c.op # "R" THEN r.out ELSE Append(r.out, IF a # p THEN "?" ELSE IF a THEN "new" ELSE "old")]
  IN  FoldLeft(Op, [raw |-> {}, plain |-> {}, out |-> <<>>], ops).out

(* May the grammar be built?                                               *)
AsGrammar(B) == [start |-> B.start, rules |-> SetToSeq(B.rules)]
Buildable(B) == B.start # 0 /\ Complete(AsGrammar(B))
=============================================================================
