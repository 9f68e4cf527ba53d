----------------------------- MODULE MCPipeline -----------------------------
(***************************************************************************)
(* A parser that asks its lexer for tokens one by one says about a text    *)
(* what the grammar says about the tokens of the text: texts that cannot   *)
(* be turned into tokens completely are refused, wherever parsing has got. *)
(***************************************************************************)
EXTENDS SlrNoStart, FiniteSetsExt

X == INSTANCE LexMachine

CONSTANTS MaxWord

Lit(c) == X!SetOf(FALSE, <<X!Rng(c, c)>>)
Rep(e, lo, hi) == [t |-> "rep", e |-> e, lo |-> lo, hi |-> hi]
Cat(x) == [t |-> "cat", es |-> x]
A == Lit(97)
B == Lit(98)
Blank == Lit(32)

(* Lexers; pattern i makes tokens of kind -i.                              *)
Lexers == {<<A, B>>, <<Rep(A, 1, X!Inf), B>>, <<Cat(<<A, B>>), A>>, <<Cat(<<A, B, A>>), A, B>>,
           <<Rep(A, 2, 2), B>>, <<B, Cat(<<B, A>>), Blank>>}
R(h, b) == [h |-> h, b |-> b]
Grammars ==
  { [start |-> 1, rules |-> <<R(1, <<>>), R(1, <<1, -1>>)>>],
    [start |-> 1, rules |-> <<R(1, <<-1>>), R(1, <<1, -2, -1>>)>>],
    [start |-> 1, rules |-> <<R(1, <<-1, 1, -2>>), R(1, <<>>)>>],
    [start |-> 1, rules |-> <<R(1, <<2, 2>>), R(2, <<-1, 2>>), R(2, <<-2>>)>>],
    [start |-> 1, rules |-> <<R(1, <<2>>), R(1, <<1, 2>>), R(2, <<-2, 3>>), R(2, <<-1>>),
                              R(3, <<>>), R(3, <<-1>>)>>],
    [start |-> 1, rules |-> <<R(1, <<2, 3>>), R(2, <<>>), R(2, <<-3, 2>>), R(3, <<-2>>), R(3, <<-1>>)>>] }
Texts == UNION {[1..n -> {97, 98, 32}] : n \in 0..MaxWord}

VARIABLES g, T, es, a, w,
          lx,       \* the lexer
          tok,      \* look-ahead: <<>> none yet, else <<kind>>, kind 0 at the end
          m         \* the parser
vars == <<g, T, es, a, w, lx, tok, m>>

Init == /\ g \in {h \in Grammars : PlainTables(h).ok}
        /\ T = PlainTables(g)
        /\ es \in Lexers /\ a = X!Automaton(es)
        /\ w \in Texts
        /\ lx = X!LexReady /\ tok = <<>> /\ m = PlainReady

(* The parser asks for a token.                                            *)
Ask == /\ m.v = "run" /\ tok = <<>> /\ lx.pc = "idle"
       /\ lx' = X!LexCall(a, lx)
       /\ UNCHANGED <<g, T, es, a, w, tok, m>>
Read == /\ lx.pc = "read" /\ X!CanGoOn(a, lx, w)
        /\ lx' = X!LexRead(a, lx, w)
        /\ UNCHANGED <<g, T, es, a, w, tok, m>>
AtEnd(l) == l.again = <<>> /\ l.next = Len(w)
Get == /\ lx.pc = "read" /\ ~X!CanGoOn(a, lx, w)
       /\ lx' = X!LexReturn(lx, w)
       /\ tok' = <<-lx.kind>>
       /\ m' = IF lx.kind = 0 /\ ~AtEnd(lx') THEN [m EXCEPT !.v = "err"] ELSE m
       /\ UNCHANGED <<g, T, es, a, w>>
(* The parser makes a step on the look-ahead; shifting uses it up.         *)
Step == /\ m.v = "run" /\ tok # <<>>
        /\ LET n == PlainStep(g, T, [m EXCEPT !.i = 0], IF tok[1] = 0 THEN <<>> ELSE tok)
           IN  m' = [n EXCEPT !.i = m.i + n.i] /\ tok' = IF n.i = 1 THEN <<>> ELSE tok
        /\ UNCHANGED <<g, T, es, a, w, lx>>
Next == Ask \/ Read \/ Get \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Kinds == LET s == X!Stream(es, w) IN [i \in 1..Len(s) |-> -s[i][1]]
Verdict == m.v # "run" => (m.v = "ok") = (X!Lexable(es, w) /\ Sentence(g, Kinds))
Halting == <>(m.v # "run")
=============================================================================
