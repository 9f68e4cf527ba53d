---------------------------- MODULE CfsmMachine ----------------------------
(***************************************************************************)
(* How the state machine is constructed: states wait in a queue until they *)
(* get their transitions, one symbol after the other, in an order that     *)
(* depends on hash tables.  A set of items that no known state has becomes *)
(* a new state with the next number.                                       *)
(*                                                                         *)
(* c = [wait |-> sequence of states without transitions,                   *)
(*      now  |-> the state that gets its transitions,                      *)
(*      left |-> symbols it has not been advanced over yet,                *)
(*      done |-> set of finished states, next |-> next number]             *)
(* A state is [id, items, go], go a set of <<symbol, number>>.             *)
(***************************************************************************)
EXTENDS Lr0

FreshState(id, I) == [id |-> id, items |-> I, go |-> {}]
NoState == [id |-> -1, items |-> {}, go |-> {}]
CfsmReady(g) ==
  [wait |-> <<FreshState(0, StartState(g))>>, now |-> NoState, left |-> {}, done |-> {}, next |-> 1]

CfsmBusy(c) == c.now # NoState
CfsmFinished(c) == ~CfsmBusy(c) /\ c.wait = <<>>

CfsmTake(g, c) ==
  [c EXCEPT !.now = c.wait[1], !.wait = Tail(@), !.left = NextSymbols(g, c.wait[1].items)]

Known(c) == c.done \cup {c.now} \cup ToSet(c.wait)
CfsmSymbol(g, c, X) ==
  LET J == GoTo(g, c.now.items, X)
      K == {s \in Known(c) : s.items = J}
      n == IF K = {} THEN c.next ELSE (CHOOSE s \in K : TRUE).id
      d == [c EXCEPT !.now.go = @ \cup {<<X, n>>}, !.left = @ \ {X}]
  IN  IF K # {} THEN d
      ELSE [d EXCEPT !.wait = Append(@, FreshState(n, J)), !.next = @ + 1]

CfsmPut(c) == [c EXCEPT !.done = @ \cup {c.now}, !.now = NoState]
=============================================================================
