--------------------------- MODULE SyntaxMachine ---------------------------
(***************************************************************************)
(* The pattern grammar as a machine that reads one token after the other.  *)
(* Besides its control state q it only has to remember d, the number of    *)
(* groups that are open.  It accepts the same sequences of tokens as the   *)
(* recursive descent of PatternSyntax (checked in mc/MCSyntax), and it     *)
(* copes with patterns of any length and depth.                            *)
(*                                                                         *)
(*   need   an item has to come                                            *)
(*   item   after an item, which a quantifier may follow                   *)
(*   rest   after an item with its quantifier                              *)
(*   open   after the bracket that opens a set                             *)
(*   set    in a set, before a member                                      *)
(*   lit    in a set, after a character, which may be the start of a range *)
(*   range  in a set, after a character and a dash                         *)
(*   bad    there is no way to go on                                       *)
(***************************************************************************)
EXTENDS PatternSyntax, SequencesExt

Begin == [q |-> "need", d |-> 0]

To(m, q) == [m EXCEPT !.q = q]
Op(t, c) == t.k = "op" /\ t.v = c

OutsideStep(m, t) ==
  CASE t.k \in {"lit", "class"}  -> To(m, "item")
    [] t.k = "quant"             -> To(m, IF m.q = "item" THEN "rest" ELSE "bad")
    [] Op(t, 91)                 -> To(m, "open")
    [] Op(t, 40)                 -> [q |-> "need", d |-> m.d + 1]
    [] Op(t, 41)                 -> IF m.q = "need" \/ m.d = 0 THEN To(m, "bad") ELSE [q |-> "item", d |-> m.d - 1]
    [] Op(t, 124)                -> To(m, IF m.q = "need" THEN "bad" ELSE "need")
    [] OTHER                     -> To(m, "bad")

SetStep(m, t) ==
  CASE m.q = "range"             -> To(m, IF t.k = "lit" THEN "set" ELSE "bad")
    [] m.q # "range" /\ t.k = "lit"   -> To(m, "lit")
    [] m.q # "range" /\ t.k = "class" -> To(m, "set")
    [] m.q # "range" /\ Op(t, 93)     -> To(m, "item")
    [] m.q = "open" /\ Op(t, 94)      -> To(m, "set")
    [] m.q = "lit" /\ Op(t, 45)       -> To(m, "range")
    [] OTHER                     -> To(m, "bad")

SyntaxStep(m, t) ==
  CASE m.q = "bad"                       -> m
    [] m.q \in {"need", "item", "rest"}  -> OutsideStep(m, t)
    [] OTHER                             -> SetStep(m, t)

AcceptsTokens(ts) ==
  LET m == FoldLeft(SyntaxStep, Begin, ts)
  IN  ts = <<>> \/ (m.d = 0 /\ m.q \in {"item", "rest"})

(* The tokens of a pattern, likewise one after the other: i is the index   *)
(* of the next character that is not part of a token.                      *)
TokensInOrder(p) ==
  LET Next(m, i) == IF i < m.i THEN m
                    ELSE LET t == TokenAt(p, i) IN [i |-> t.e + 1, ts |-> Append(m.ts, t)]
  IN  FoldLeft(Next, [i |-> 1, ts |-> <<>>], [i \in 1..Len(p) |-> i]).ts

MachineAccepts(p) == AcceptsTokens(TokensInOrder(p))

---------------------------------------------------------------------------
(* The same machine with a stack, which builds the syntax tree.  For each  *)
(* open group, and the pattern around them, there is a frame: the complete *)
(* alternatives and the items of the current one.  set is the bracket      *)
(* group being read.                                                       *)
EmptyFrame == [alts |-> <<>>, es |-> <<>>]
TreeBegin == [m |-> Begin, st |-> <<EmptyFrame>>, set |-> SetOf(FALSE, <<>>)]

CatOf(es) == IF Len(es) = 1 THEN es[1] ELSE [t |-> "cat", es |-> es]
Closed(f) == LET Or(a, b) == [t |-> "alt", l |-> a, r |-> b]
             IN  FoldRight(Or, f.alts, CatOf(f.es))

Top(x)        == x.st[Len(x.st)]
WithTop(x, f) == [x EXCEPT !.st[Len(x.st)] = f]
Push(x, e)    == WithTop(x, [Top(x) EXCEPT !.es = Append(@, e)])
Member(x, it) == [x EXCEPT !.set.items = Append(@, it)]

OutsideTree(x, t) ==
  CASE t.k = "lit"   -> Push(x, SetOf(FALSE, <<Rng(t.v, t.v)>>))
    [] t.k = "class" -> Push(x, SetOf(FALSE, <<Cls(t.v)>>))
    [] t.k = "quant" -> WithTop(x, [Top(x) EXCEPT !.es[Len(Top(x).es)] = [t |-> "rep", e |-> @, lo |-> t.lo, hi |-> t.hi]])
    [] Op(t, 91)     -> [x EXCEPT !.set = SetOf(FALSE, <<>>)]
    [] Op(t, 40)     -> [x EXCEPT !.st = Append(@, EmptyFrame)]
    [] Op(t, 41)     -> Push([x EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)], Closed(Top(x)))
    [] Op(t, 124)    -> WithTop(x, [alts |-> Append(Top(x).alts, CatOf(Top(x).es)), es |-> <<>>])

SetTree(x, t) ==
  CASE x.m.q = "range" -> [x EXCEPT !.set.items[Len(x.set.items)].b = t.v]
    [] x.m.q # "range" /\ t.k = "lit" -> Member(x, Rng(t.v, t.v))
    [] t.k = "class" -> Member(x, Cls(t.v))
    [] Op(t, 93)     -> Push(x, x.set)
    [] Op(t, 94)     -> [x EXCEPT !.set.neg = TRUE]
    [] Op(t, 45)     -> x

TreeStep(x, t) ==
  LET m == SyntaxStep(x.m, t) IN
  IF m.q = "bad" THEN [x EXCEPT !.m = m]
  ELSE [(IF x.m.q \in {"need", "item", "rest"} THEN OutsideTree(x, t) ELSE SetTree(x, t)) EXCEPT !.m = m]

MachineParseTokens(ts) ==
  IF ts = <<>> THEN Got([t |-> "eps"], 1)
  ELSE LET x == FoldLeft(TreeStep, TreeBegin, ts)
       IN  IF x.m.d = 0 /\ x.m.q \in {"item", "rest"} THEN Got(Closed(Top(x)), Len(ts) + 1) ELSE Fail

MachineParse(p) == MachineParseTokens(TokensInOrder(p))
=============================================================================
