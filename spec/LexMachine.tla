----------------------------- MODULE LexMachine -----------------------------
(***************************************************************************)
(* The lexer at work.  It reads characters into a suffix that has not been *)
(* accepted yet; whenever the automaton accepts, the suffix becomes part   *)
(* of the token.  When no character can be fed any more, the suffix is put *)
(* back in front of the characters still to be read.                       *)
(*                                                                         *)
(* m = [pc     |-> "idle" between calls, "read" within a call,             *)
(*      R      |-> runs of the automaton,                                  *)
(*      tok    |-> <<start, end>> of the accepted part of the token,       *)
(*      kind   |-> pattern of the accepted part, 0 if there is none,       *)
(*      suffix |-> characters read but not accepted,                       *)
(*      again  |-> characters that have been put back,                     *)
(*      next   |-> characters taken from the input so far]                 *)
(* A character is <<position, character>>.                                 *)
(***************************************************************************)
EXTENDS CountedNfa

LexReady == [pc |-> "idle", R |-> {}, tok |-> <<0, 0>>, kind |-> 0,
             suffix |-> <<>>, again |-> <<>>, next |-> 0]

(* The call begins.                                                        *)
LexCall(a, m) == [m EXCEPT !.pc = "read", !.R = Begin(a), !.kind = 0]

HasChar(m, w) == m.again # <<>> \/ m.next < Len(w)
Char(m, w) == IF m.again # <<>> THEN m.again[1] ELSE <<m.next, w[m.next + 1]>>

Pulled(m, w) ==
  LET n == [m EXCEPT !.suffix = Append(@, Char(m, w))]
  IN  IF m.again # <<>> THEN [n EXCEPT !.again = Tail(@)] ELSE [n EXCEPT !.next = @ + 1]

(* A character is read; if the automaton can take it, it is fed.  The      *)
(* character that cannot be fed ends the token, and is put back as well.   *)
CanGoOn(a, m, w) == HasChar(m, w) /\ CanFeed(a, m.R, Char(m, w)[2])

Accepted(m, k) ==
  LET last == m.suffix[Len(m.suffix)]
  IN  [m EXCEPT !.tok = <<@[1], last[1] + 1>>, !.kind = k, !.suffix = <<>>]

LexRead(a, m, w) ==
  LET R == Feed(a, m.R, Char(m, w)[2])
      n == [Pulled(m, w) EXCEPT !.R = R]
  IN  IF Finals(a, R) = {} THEN n ELSE Accepted(n, SetMin(Finals(a, R)))

(* The call ends: with the token, or with nothing.                         *)
Restored(m) == [m EXCEPT !.again = m.suffix \o @, !.suffix = <<>>, !.pc = "idle", !.R = {}]
LexReturn(m, w) ==
  LET n == IF HasChar(m, w) THEN Restored(Pulled(m, w)) ELSE Restored(m)
  IN  IF m.kind = 0 THEN n ELSE [n EXCEPT !.tok = <<@[2], @[2]>>]
=============================================================================
