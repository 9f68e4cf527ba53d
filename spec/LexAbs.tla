------------------------------- MODULE LexAbs -------------------------------
(***************************************************************************)
(* The lexer as seen by its user. es is the sequence of the declared       *)
(* patterns (as syntax trees), in order of declaration, and w the input.   *)
(***************************************************************************)
EXTENDS PatternLang

(* Maximal munch: the length of the longest token at position p, 0 if no   *)
(* pattern matches a non-empty prefix of the rest of the input.            *)
MunchLen(es, w, p) ==
  LET Ls == {LongestFrom(es[i], w, p) : i \in 1..Len(es)} \cup {0} IN SetMax(Ls)

(* Precedence: the first declared pattern that matches all of the text, or *)
(* 0 if there is none.                                                     *)
KindOf(es, text) ==
  LET M == {i \in 1..Len(es) : Matches(es[i], text)}
  IN  IF M = {} THEN 0 ELSE SetMin(M)

Slice(w, i, j) == [x \in 1..(j - i) |-> w[i + x]]   \* characters i..j-1

(* What a call of the lexer that stands at position p has to return:       *)
(* <<kind, end>> or <<0, p>> at the end of the stream.                     *)
NextToken(es, w, p) ==
  LET n == MunchLen(es, w, p)
  IN  IF n = 0 THEN <<0, p>> ELSE <<KindOf(es, Slice(w, p, p + n)), p + n>>

(* The token stream: a sequence of <<kind, start, end>>.                   *)
RECURSIVE StreamFrom(_, _, _, _)
StreamFrom(es, w, p, acc) ==
  LET t == NextToken(es, w, p)
  IN  IF t[1] = 0 THEN acc
      ELSE StreamFrom(es, w, t[2], Append(acc, <<t[1], p, t[2]>>))
Stream(es, w) == StreamFrom(es, w, 0, <<>>)

StreamEnd(es, w) ==
  LET s == Stream(es, w) IN IF s = <<>> THEN 0 ELSE s[Len(s)][3]

Lexable(es, w) == StreamEnd(es, w) = Len(w)
=============================================================================
