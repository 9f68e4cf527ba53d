------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters are Unicode scalar values, written as their code points.     *)
(* The predefined classes are those of the documentation: every character, *)
(* ASCII digits, Unicode white space, Unicode alphabetic characters.       *)
(*                                                                         *)
(* Alphabetic characters are a table of the environment, see UnicodeData.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, UnicodeData

MaxChar == 1114111                                  \* 10FFFF

IsScalar(c) == c \in 0..55295 \/ c \in 57344..MaxChar

SpaceRanges ==
  << <<9, 13>>, <<32, 32>>, <<133, 133>>, <<160, 160>>, <<5760, 5760>>,
     <<8192, 8202>>, <<8232, 8233>>, <<8239, 8239>>, <<8287, 8287>>,
     <<12288, 12288>> >>

DigitRanges == << <<48, 57>> >>

InRanges(rs, c) == \E i \in 1..Len(rs) : rs[i][1] <= c /\ c <= rs[i][2]

(* The intervals of AlphaRanges are in increasing order: binary search.    *)
RECURSIVE AlphaSearch(_, _, _)
AlphaSearch(c, lo, hi) ==
  IF lo > hi THEN FALSE
  ELSE LET mid == (lo + hi) \div 2
           r   == AlphaRanges[mid]
       IN  IF c < r[1] THEN AlphaSearch(c, lo, mid - 1)
           ELSE IF c > r[2] THEN AlphaSearch(c, mid + 1, hi)
           ELSE TRUE

IsDigit(c) == c >= 48 /\ c <= 57
IsSpace(c) == InRanges(SpaceRanges, c)
IsAlpha(c) == AlphaSearch(c, 1, Len(AlphaRanges))

IsHex(c) == \/ c >= 48 /\ c <= 57
            \/ c >= 65 /\ c <= 70
            \/ c >= 97 /\ c <= 102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsLetter(c) == \/ c >= 65 /\ c <= 90
               \/ c >= 97 /\ c <= 122

(* Predefined classes, named by the character that selects them; 46 is the *)
(* full stop (wildcard).                                                   *)
ClassNames == {46, 119, 87, 100, 68, 115, 83}       \* . w W d D s S

InClass(k, c) ==
  CASE k = 46  -> TRUE
    [] k = 119 -> IsAlpha(c)
    [] k = 87  -> ~IsAlpha(c)
    [] k = 100 -> IsDigit(c)
    [] k = 68  -> ~IsDigit(c)
    [] k = 115 -> IsSpace(c)
    [] k = 83  -> ~IsSpace(c)
=============================================================================
