------------------------------ MODULE MCSyntax ------------------------------
(***************************************************************************)
(* The recursive descent of PatternSyntax and the machine of SyntaxMachine, *)
(* which judge the implementation, accept exactly the sentences of the     *)
(* pattern grammar, written down here as a grammar in the sense of Cfg.    *)
(* All sequences of up to MaxLen tokens; the machine is also compared with *)
(* the recursive descent alone, on sequences of up to Longer tokens of the *)
(* kinds that matter to it.                                                *)
(***************************************************************************)
EXTENDS SyntaxMachine, TLC

C == INSTANCE Cfg

CONSTANT MaxLen, Longer

(* Kinds of tokens (terminals), and a token of each kind.                  *)
LIT == -1  CLASS == -2  QUANT == -3  OPEN == -4  CLOSE == -5  LBR == -6
RBR == -7  HAT == -8    BAR == -9    DASH == -10  BAD == -11
Kinds == {LIT, CLASS, QUANT, OPEN, CLOSE, LBR, RBR, HAT, BAR, DASH, BAD}
Token(k) ==
  CASE k = LIT   -> Tok("lit", 97, 0, 0, 0, 1)
    [] k = CLASS -> Tok("class", 46, 0, 0, 0, 1)
    [] k = QUANT -> Tok("quant", 0, 0, Inf, 0, 1)
    [] k = OPEN  -> Tok("op", 40, 0, 0, 0, 1)
    [] k = CLOSE -> Tok("op", 41, 0, 0, 0, 1)
    [] k = LBR   -> Tok("op", 91, 0, 0, 0, 1)
    [] k = RBR   -> Tok("op", 93, 0, 0, 0, 1)
    [] k = HAT   -> Tok("op", 94, 0, 0, 0, 1)
    [] k = BAR   -> Tok("op", 124, 0, 0, 0, 1)
    [] k = DASH  -> Tok("op", 45, 0, 0, 0, 1)
    [] k = BAD   -> Tok("bad", 0, 0, 0, 0, 1)

Regex == 1  Expr == 2  Sub == 3  Itm == 4  Opt == 5  Mat == 6  Mem == 7  Mems == 8
R(h, b) == [h |-> h, b |-> b]
Grammar ==
  [start |-> Regex,
   rules |-> << R(Regex, <<>>), R(Regex, <<Expr>>),
                R(Expr, <<Sub>>), R(Expr, <<Sub, BAR, Expr>>),
                R(Sub, <<Itm>>), R(Sub, <<Itm, Sub>>),
                R(Itm, <<OPEN, Expr, CLOSE, Opt>>), R(Itm, <<Mat, Opt>>),
                R(Opt, <<>>), R(Opt, <<QUANT>>),
                R(Mat, <<LIT>>), R(Mat, <<CLASS>>),
                R(Mat, <<LBR, Mems, RBR>>), R(Mat, <<LBR, HAT, Mems, RBR>>),
                R(Mems, <<>>), R(Mems, <<Mem, Mems>>),
                R(Mem, <<CLASS>>), R(Mem, <<LIT>>), R(Mem, <<LIT, DASH, LIT>>) >>]

Tokenized(x) == [i \in 1..Len(x) |-> [Token(x[i]) EXCEPT !.v = IF x[i] = LIT THEN 96 + i ELSE @, !.hi = i]]
Descent(x) == ParseTokens(Tokenized(x)).ok
SyntaxMachineState(x) == FoldLeft(SyntaxStep, Begin, Tokenized(x))

VARIABLE s
Init == s = <<>>
Live == SyntaxMachineState(s).q # "bad"
Next == \E k \in Kinds : /\ Len(s) < MaxLen \/ (Len(s) < Longer /\ Live)
                         /\ s' = Append(s, k)
Spec == Init /\ [][Next]_s

Agree == /\ Descent(s) = AcceptsTokens(Tokenized(s))
         /\ ParseTokens(Tokenized(s)) = MachineParseTokens(Tokenized(s))
         /\ Len(s) <= MaxLen => Descent(s) = C!Sentence(Grammar, s)
=============================================================================
