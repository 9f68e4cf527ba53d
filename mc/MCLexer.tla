------------------------------ MODULE MCLexer ------------------------------
(***************************************************************************)
(* The lexer at work (LexMachine) returns what the user expects (LexAbs):  *)
(* all lexers with up to two patterns of a small family, on all short      *)
(* inputs, with calls repeated after the end of the stream.                *)
(***************************************************************************)
EXTENDS LexMachine

CONSTANTS MaxWord, NumPats

Lit(c) == SetOf(FALSE, <<Rng(c, c)>>)
Rep(e, lo, hi) == [t |-> "rep", e |-> e, lo |-> lo, hi |-> hi]
Cat(x) == [t |-> "cat", es |-> x]
Alt(x, y) == [t |-> "alt", l |-> x, r |-> y]
A == Lit(97)
B == Lit(98)

Pool == {A, B, Cat(<<A, B>>), Rep(A, 0, Inf), Rep(A, 1, Inf), Rep(B, 0, 1), Rep(A, 2, 2),
         Rep(B, 1, 2), Cat(<<Rep(A, 0, Inf), B>>), Cat(<<A, Rep(B, 0, Inf), A>>),
         Cat(<<A, B, A, B>>), Rep(Cat(<<A, B>>), 2, Inf), Alt(A, Cat(<<B, B, B>>)),
         Cat(<<A, A, A>>), SetOf(TRUE, <<Rng(97, 97)>>), Rep(SetOf(TRUE, <<>>), 3, 3),
         [t |-> "eps"]}
Lexers == UNION {[1..n -> Pool] : n \in 1..NumPats}
Inputs == UNION {[1..n -> {97, 98}] : n \in 0..MaxWord} \cup {<<97, 98, 99>>, <<99>>, <<97, 97, 99, 97>>}

VARIABLES es, w, a, m,
          p,        \* position after the tokens returned so far
          ret,      \* what the last call returned: <<kind, end>>
          nones     \* calls that returned nothing
vars == <<es, w, a, m, p, ret, nones>>

Init == /\ es \in Lexers
        /\ w \in Inputs
        /\ a = Automaton(es)
        /\ m = LexReady
        /\ p = 0 /\ ret = <<>> /\ nones = 0

CallNext == /\ m.pc = "idle" /\ nones < 2
            /\ m' = LexCall(a, m)
            /\ p' = IF ret = <<>> THEN p ELSE ret[2]
            /\ ret' = <<>>
            /\ UNCHANGED <<es, w, a, nones>>
ReadChar == /\ m.pc = "read" /\ CanGoOn(a, m, w)
            /\ m' = LexRead(a, m, w)
            /\ UNCHANGED <<es, w, a, p, ret, nones>>
Return == /\ m.pc = "read" /\ ~CanGoOn(a, m, w)
          /\ m' = LexReturn(m, w)
          /\ ret' = IF m.kind = 0 THEN <<0, p>> ELSE <<m.kind, m.tok[2]>>
          /\ nones' = IF m.kind = 0 THEN nones + 1 ELSE nones
          /\ UNCHANGED <<es, w, a, p>>
Next == CallNext \/ ReadChar \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* The result of each call is the one the user expects.                    *)
ReturnsRight == ret # <<>> => ret = NextToken(es, w, p)
(* No character gets lost or doubled: what is accepted, what is not, what  *)
(* has been put back and what is still to come make up the input.          *)
Left == m.suffix \o m.again \o [i \in 1..(Len(w) - m.next) |-> <<m.next + i - 1, w[m.next + i]>>]
Conserved == LET k == m.tok[2] IN
             Left = [i \in 1..(Len(w) - k) |-> <<k + i - 1, w[k + i]>>]
Starts == m.tok[1] = IF ret = <<>> THEN p ELSE ret[2]
(* Every call returns, and the stream ends.                                *)
Ends2 == <>(nones = 2)
=============================================================================
