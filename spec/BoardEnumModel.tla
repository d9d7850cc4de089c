------------------------------ MODULE BoardEnumModel ------------------------------
(***************************************************************************)
(* Hole cards, a board and dead cards are dealt step by step; at each      *)
(* state the completions with weights stand for all completions.           *)
(***************************************************************************)
EXTENDS BoardEnum
CONSTANTS MaxPlayers, MaxDead, Slip
VARIABLES holes, fixed, dead
vars == <<holes, fixed, dead>>
Used == UNION holes \cup fixed \cup dead
Code(c) == c[1] * Cardinality(Suits) + c[2]
Over(S, c) == \A d \in S : Code(d) < Code(c)
Init == holes = {} /\ fixed = {} /\ dead = {}
DealHole == /\ Cardinality(holes) < MaxPlayers /\ fixed = {} /\ dead = {}
            /\ \E h \in kSubset(2, Deck \ Used) :
                 /\ \A k \in holes : Max2({ Code(c) : c \in k }) < Max2({ Code(c) : c \in h })
                 /\ holes' = holes \cup {h}
            /\ UNCHANGED <<fixed, dead>>
DealBoard == holes # {} /\ dead = {} /\ Cardinality(fixed) < BoardSize
             /\ (\E c \in Deck \ Used : Over(fixed, c) /\ fixed' = fixed \cup {c}) /\ UNCHANGED <<holes, dead>>
DealDead == holes # {} /\ Cardinality(dead) < MaxDead
            /\ (\E c \in Deck \ Used : Over(dead, c) /\ dead' = dead \cup {c}) /\ UNCHANGED <<holes, fixed>>
Next == DealHole \/ DealBoard \/ DealDead
Spec == Init /\ [][Next]_vars

\* Slip: one card too few is expected to come, the mistake that this shortcut invites.
Suits1(board, left) == { u \in Suits : Matters(holes, board, u, left - Slip) }
Reached == TLCEval(Completions(holes, fixed, Used, Suits1))
WeightOf(S) == FoldSet(LAMBDA x, acc : acc + x[2], 0, S)
StandsForAll ==
  holes # {} =>
  LET got == Reached
      all == AllBoards(fixed, Used)
      view == TLCEval([b \in all |-> View(holes, b)])
      ofGot(v) == { x \in got : view[x[1]] = v }
      ofAll(v) == { b \in all : view[b] = v }
  IN /\ \A x \in got : x[1] \in all
     /\ \A v \in { view[b] : b \in all } : WeightOf(ofGot(v)) = Cardinality(ofAll(v))
===================================================================================
