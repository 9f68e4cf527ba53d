------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* A lexer in front of a parser.  The i-th pattern makes tokens of kind    *)
(* ks[i] whose payload is the number of characters of their text.          *)
(***************************************************************************)
EXTENDS Builder

Lx == INSTANCE PatternMachine

(* [p |-> position, ts |-> tokens so far]                                  *)
LexToken(es, ks, w, m) ==
  LET n == Lx!MachineMunch(es, w, m.p) IN
  IF n = 0 THEN m
  ELSE LET k == ks[Lx!MachineKind(es, Lx!Slice(w, m.p, m.p + n))]
       IN  [p |-> m.p + n, ts |-> Append(m.ts, -(1 + k * 256 + (n % 256)))]

(* n tokens, twice as many, ..., until there are no more.                  *)
RECURSIVE LexFrom(_, _, _, _, _)
LexFrom(es, ks, w, m, n) ==
  LET Op(c, i) == LexToken(es, ks, w, c)
      r == FoldLeft(Op, m, [i \in 1..n |-> i])
  IN  IF r.p = m.p \/ r.p = Len(w) THEN r ELSE LexFrom(es, ks, w, r, 2 * n)

LexAll(es, ks, w) == LexFrom(es, ks, w, [p |-> 0, ts |-> <<>>], 8)
Unlexable(w, m)   == m.p < Len(w)
(* What a parser gets that comes after n calls of the lexer.               *)
Rest(m, n)        == SubSeq(m.ts, n + 1, Len(m.ts))
=============================================================================
