--------------------------- MODULE PatternSyntax ---------------------------
(***************************************************************************)
(* Syntax of patterns: how a sequence of characters is read as tokens, and *)
(* which sequences of tokens are patterns.                                 *)
(*                                                                         *)
(* A token is a record [k, v, lo, hi, s, e]:                               *)
(*   k = "lit"    the character v                                          *)
(*   k = "class"  the predefined class v                                   *)
(*   k = "op"     the operator character v                                 *)
(*   k = "quant"  repetition between lo and hi times, hi = Inf unbounded   *)
(*   k = "bad"    something that is not a token; no pattern contains it    *)
(* s and e are its span in the pattern, counted in characters from 0; e    *)
(* points one beyond the last character.                                   *)
(*                                                                         *)
(* A syntax tree is one of                                                 *)
(*   [t |-> "eps"]                         the empty string                *)
(*   [t |-> "set", neg, items]             one character                   *)
(*   [t |-> "cat", es]                     concatenation                   *)
(*   [t |-> "alt", l, r]                   alternation                     *)
(*   [t |-> "rep", e, lo, hi]              repetition                      *)
(* where items is a sequence of [k, a, b]: the range a..b for k = "rng",   *)
(* the class a for k = "cls".                                              *)
(***************************************************************************)
EXTENDS Chars

Inf == -1

(* Numbers are only told apart up to Big; no modelled input is that long.  *)
Big == 100000000

Tok(k, v, lo, hi, s, e) == [k |-> k, v |-> v, lo |-> lo, hi |-> hi, s |-> s, e |-> e]

---------------------------------------------------------------------------
(* Lexical syntax. p is the pattern, i the (1-based) index of the first    *)
(* character not yet looked at; each operator yields the next token.       *)

\* first index >= i that does not hold a character of the given kind
RECURSIVE HexEnd(_, _, _)
HexEnd(p, i, max) ==
  IF max = 0 \/ i > Len(p) \/ ~IsHex(p[i]) THEN i ELSE HexEnd(p, i + 1, max - 1)

RECURSIVE DigitEnd(_, _)
DigitEnd(p, i) == IF i > Len(p) \/ ~IsDigit(p[i]) THEN i ELSE DigitEnd(p, i + 1)

RECURSIVE HexNumber(_, _, _, _)
HexNumber(p, i, j, acc) ==
  IF i >= j THEN acc ELSE HexNumber(p, i + 1, j, acc * 16 + HexVal(p[i]))

(* Value of the decimal digits p[i..j-1], saturated at Big.                *)
RECURSIVE DecNumber(_, _, _, _)
DecNumber(p, i, j, acc) ==
  IF i >= j THEN acc
  ELSE DecNumber(p, i + 1, j, IF acc >= Big \div 10 THEN Big ELSE acc * 10 + (p[i] - 48))

(* Do the decimal digits p[i..j-1] denote a number below 2^32?  Compared   *)
(* digit by digit, because the number itself may be too large for TLC.     *)
Limit == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>          \* 4294967295
RECURSIVE SkipZeros(_, _, _)
SkipZeros(p, i, j) == IF i < j /\ p[i] = 48 THEN SkipZeros(p, i + 1, j) ELSE i
RECURSIVE DigitsLeq(_, _, _)
DigitsLeq(p, i, n) ==
  IF n > Len(Limit) THEN TRUE
  ELSE IF p[i] < Limit[n] THEN TRUE
  ELSE IF p[i] > Limit[n] THEN FALSE
  ELSE DigitsLeq(p, i + 1, n + 1)
FitsU32(p, i, j) ==
  LET z == SkipZeros(p, i, j)
      n == j - z
  IN  n < Len(Limit) \/ (n = Len(Limit) /\ DigitsLeq(p, z, 1))

Bad(p, i, j) == Tok("bad", 0, 0, 0, i - 1, j - 1)

\* the character at i starts at span i-1; the token ends before index j
LitTok(v, i, j)   == Tok("lit", v, 0, 0, i - 1, j - 1)
ClassTok(v, i, j) == Tok("class", v, 0, 0, i - 1, j - 1)

Punctuation == {94, 36, 92, 46, 42, 43, 63, 40, 41, 91, 93, 124, 47, 123, 125, 45}
                \* ^ $ \ . * + ? ( ) [ ] | / { } -
Operators   == {91, 93, 40, 41, 94, 124, 45}        \* [ ] ( ) ^ | -

EscapeTok(p, i) ==
  LET n == Len(p) IN
  IF i + 1 > n THEN Bad(p, i, n + 1)
  ELSE LET c == p[i + 1] IN
    CASE c \in {119, 87, 100, 68, 115, 83} -> ClassTok(c, i, i + 2)
      [] c = 102 -> LitTok(12, i, i + 2)                       \* \f
      [] c = 110 -> LitTok(10, i, i + 2)                       \* \n
      [] c = 114 -> LitTok(13, i, i + 2)                       \* \r
      [] c = 116 -> LitTok(9, i, i + 2)                        \* \t
      [] c = 118 -> LitTok(11, i, i + 2)                       \* \v
      [] c = 48  -> LitTok(0, i, i + 2)                        \* \0
      [] c \in Punctuation -> LitTok(c, i, i + 2)
      [] c = 99 ->                                             \* \cX
           IF i + 2 <= n /\ IsLetter(p[i + 2])
           THEN LitTok(p[i + 2] % 32, i, i + 3) ELSE Bad(p, i, n + 1)
      [] c = 120 ->                                            \* \xHH
           LET j == HexEnd(p, i + 2, 2) IN
           IF j = i + 4 THEN LitTok(HexNumber(p, i + 2, j, 0), i, j) ELSE Bad(p, i, n + 1)
      [] c = 117 ->                                            \* \uHHHH \u{HHHHH}
           IF i + 2 <= n /\ p[i + 2] = 123
           THEN LET j == HexEnd(p, i + 3, 5)
                    v == HexNumber(p, i + 3, j, 0)
                IN  IF j >= i + 7 /\ j <= n /\ p[j] = 125 /\ IsScalar(v)
                    THEN LitTok(v, i, j + 1) ELSE Bad(p, i, n + 1)
           ELSE LET j == HexEnd(p, i + 2, 4)
                    v == HexNumber(p, i + 2, j, 0)
                IN  IF j = i + 6 /\ IsScalar(v)
                    THEN LitTok(v, i, j) ELSE Bad(p, i, n + 1)
      [] OTHER -> Bad(p, i, n + 1)

QuantTok(lo, hi, i, j) == Tok("quant", 0, lo, hi, i - 1, j - 1)

CountTok(p, i) ==                                   \* {n} {n,} {n,m}
  LET n == Len(p)
      j == DigitEnd(p, i + 1)
  IN  IF j = i + 1 \/ j > n \/ ~FitsU32(p, i + 1, j) THEN Bad(p, i, n + 1)
      ELSE LET lo == DecNumber(p, i + 1, j, 0) IN
        IF p[j] = 125 THEN QuantTok(lo, lo, i, j + 1)
        ELSE IF p[j] # 44 \/ j + 1 > n THEN Bad(p, i, n + 1)
        ELSE IF p[j + 1] = 125 THEN QuantTok(lo, Inf, i, j + 2)
        ELSE LET m == DigitEnd(p, j + 1) IN
          IF m = j + 1 \/ m > n THEN Bad(p, i, n + 1)
          ELSE IF p[m] # 125 \/ ~FitsU32(p, j + 1, m) THEN Bad(p, i, n + 1)
          ELSE QuantTok(lo, DecNumber(p, j + 1, m, 0), i, m + 1)

TokenAt(p, i) ==
  LET c == p[i] IN
  CASE c = 92  -> EscapeTok(p, i)
    [] c = 46  -> ClassTok(46, i, i + 1)
    [] c \in Operators -> Tok("op", c, 0, 0, i - 1, i)
    [] c = 42  -> QuantTok(0, Inf, i, i + 1)        \* *
    [] c = 43  -> QuantTok(1, Inf, i, i + 1)        \* +
    [] c = 63  -> QuantTok(0, 1, i, i + 1)          \* ?
    [] c = 123 -> CountTok(p, i)
    [] OTHER   -> LitTok(c, i, i + 1)

(* A bad token extends to the end of the pattern: nothing after it can     *)
(* make the pattern acceptable.                                            *)
RECURSIVE TokensFrom(_, _, _)
TokensFrom(p, i, acc) ==
  IF i > Len(p) THEN acc
  ELSE LET t == TokenAt(p, i) IN TokensFrom(p, t.e + 1, Append(acc, t))

Tokens(p) == TokensFrom(p, 1, <<>>)

---------------------------------------------------------------------------
(* Context-free syntax, read by recursive descent over a token sequence:   *)
(*   expression ::= sub_expression ("|" expression)?                       *)
(*   sub_expression ::= item+                                              *)
(*   item ::= "(" expression ")" QUANT? | match QUANT?                     *)
(*   match ::= CLASS | LIT | "[" "^"? member* "]"                          *)
(*   member ::= CLASS | LIT "-" LIT | LIT                                  *)
(* Each operator yields [ok, ast, i]: i is the index of the first token    *)
(* that was not used.                                                      *)

Fail == [ok |-> FALSE, ast |-> [t |-> "eps"], i |-> 0]
Got(a, i) == [ok |-> TRUE, ast |-> a, i |-> i]

IsOp(ts, i, c)  == i <= Len(ts) /\ ts[i].k = "op" /\ ts[i].v = c
IsLit(ts, i)    == i <= Len(ts) /\ ts[i].k = "lit"
IsClass(ts, i)  == i <= Len(ts) /\ ts[i].k = "class"
IsQuant(ts, i)  == i <= Len(ts) /\ ts[i].k = "quant"

Rng(a, b) == [k |-> "rng", a |-> a, b |-> b]
Cls(a)    == [k |-> "cls", a |-> a, b |-> 0]
SetOf(neg, items) == [t |-> "set", neg |-> neg, items |-> items]

WithQuant(r, ts) ==
  IF r.ok /\ IsQuant(ts, r.i)
  THEN Got([t |-> "rep", e |-> r.ast, lo |-> ts[r.i].lo, hi |-> ts[r.i].hi], r.i + 1)
  ELSE r

RECURSIVE Members(_, _, _, _)
Members(ts, i, neg, items) ==
  CASE IsOp(ts, i, 93) -> Got(SetOf(neg, items), i + 1)
    [] IsClass(ts, i)  -> Members(ts, i + 1, neg, Append(items, Cls(ts[i].v)))
    [] IsLit(ts, i) /\ ~IsOp(ts, i + 1, 45) ->
         Members(ts, i + 1, neg, Append(items, Rng(ts[i].v, ts[i].v)))
    [] IsLit(ts, i) /\ IsOp(ts, i + 1, 45) /\ IsLit(ts, i + 2) ->
         Members(ts, i + 3, neg, Append(items, Rng(ts[i].v, ts[i + 2].v)))
    [] OTHER -> Fail

Match(ts, i) ==
  CASE IsLit(ts, i)    -> Got(SetOf(FALSE, <<Rng(ts[i].v, ts[i].v)>>), i + 1)
    [] IsClass(ts, i)  -> Got(SetOf(FALSE, <<Cls(ts[i].v)>>), i + 1)
    [] IsOp(ts, i, 91) /\ IsOp(ts, i + 1, 94)  -> Members(ts, i + 2, TRUE, <<>>)
    [] IsOp(ts, i, 91) /\ ~IsOp(ts, i + 1, 94) -> Members(ts, i + 1, FALSE, <<>>)
    [] OTHER -> Fail

RECURSIVE Expression(_, _), SubExpression(_, _, _), Item(_, _)

Item(ts, i) ==
  IF IsOp(ts, i, 40)
  THEN LET r == Expression(ts, i + 1) IN
       IF r.ok /\ IsOp(ts, r.i, 41) THEN WithQuant(Got(r.ast, r.i + 1), ts) ELSE Fail
  ELSE WithQuant(Match(ts, i), ts)

\* es: the items read so far
SubExpression(ts, i, es) ==
  IF i > Len(ts) \/ IsOp(ts, i, 124) \/ IsOp(ts, i, 41)
  THEN IF es = <<>> THEN Fail
       ELSE Got(IF Len(es) = 1 THEN es[1] ELSE [t |-> "cat", es |-> es], i)
  ELSE LET r == Item(ts, i) IN
       IF r.ok THEN SubExpression(ts, r.i, Append(es, r.ast)) ELSE Fail

Expression(ts, i) ==
  LET l == SubExpression(ts, i, <<>>) IN
  IF l.ok /\ IsOp(ts, l.i, 124)
  THEN LET r == Expression(ts, l.i + 1) IN
       IF r.ok THEN Got([t |-> "alt", l |-> l.ast, r |-> r.ast], r.i) ELSE Fail
  ELSE l

ParseTokens(ts) ==
  IF ts = <<>> THEN Got([t |-> "eps"], 1)
  ELSE LET r == Expression(ts, 1) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE Fail

Parse(p) == ParseTokens(Tokens(p))

Accepts(p) == Parse(p).ok

(* Spans an error message may point at: non-empty and inside the pattern.  *)
GoodSpan(p, s, e) == 0 <= s /\ s < e /\ e <= Len(p)
=============================================================================
