------------------------------- MODULE WeightsModel -------------------------------
(***************************************************************************)
(* A scenario of a small deck whose weights are changed step by step.      *)
(***************************************************************************)
EXTENDS Weights
CONSTANTS Factors, Amounts, Starts, MaxSteps
VARIABLES scn, base, steps
vars == <<scn, base, steps>>
\* Spades and hearts of the ranks 0..5, a flop.
Dealt == {0, 1, 4, 5, 8, 9, 12, 13, 16, 17, 20, 21}
Dead == Deck \ Dealt
Flop == {0, 5, 8}
Init == /\ \E a, b, c, d \in Starts :
             scn = [rg |-> << << <<4, 1, a>>, <<12, 9, b>> >>, << <<16, 13, c>>, <<12, 4, d>>, <<20, 17, 1>> >> >>, bd |-> Flop, dd |-> Dead]
        /\ base = TLCEval(Tally(scn)) /\ steps = 0
Scale == \E p \in 1..2, f \in Factors : (\A i \in DOMAIN scn.rg[p] : scn.rg[p][i][3] * f <= 100) /\ scn' = Scaled(scn, p, f)
Zero == \E p \in 1..2, h \in { <<21, 20>>, <<17, 1>> } :
          (\A i \in DOMAIN scn.rg[p] : CardsOf(scn.rg[p][i]) # CardsOf(h)) /\ scn' = WithZero(scn, p, h)
Next == steps < MaxSteps /\ (Scale \/ Zero) /\ steps' = steps + 1 /\ UNCHANGED base
Spec == Init /\ [][Next]_vars

Same == LET t == TLCEval(Tally(scn)) IN
  /\ SameShares(scn, base, t)
  /\ \A p \in 1..2 : SameHands([scn EXCEPT !.rg[p] = SubSeq(@, 1, IF p = 1 THEN 2 ELSE 3)], base, t, p)
\* Another weight for a hand counts in proportion to that weight.
InProportion == LET t == Tally(scn) IN
  \A i \in 1..2 : scn.rg[1][i][3] > 0 => \A w \in Amounts :
    LET u == Tally(WithWeight(scn, 1, i, w)) IN
      \A W \in Sets(scn) :
        \* relative to another hand of the range, whose weight stays
        \A j \in 1..2 \ {i} : HandWonBy(u, 1, i, W) * HandWonBy(t, 1, j, W) * scn.rg[1][i][3] = HandWonBy(t, 1, i, W) * HandWonBy(u, 1, j, W) * w
===================================================================================
