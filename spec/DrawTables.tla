------------------------------- MODULE DrawTables -------------------------------
(***************************************************************************)
(* Every abstract situation that decides a draw, and what is drawn in it.  *)
(* The machine deals ranks to a board and to the hole cards; TLC prints    *)
(* the tables that the harness composes for concrete cards.                *)
(***************************************************************************)
EXTENDS Draws, Sequences, TLC
VARIABLES mode, b, h      \* "ranks": ranks on the board and others in hand; "suit": the same in one suit
vars == <<mode, b, h>>
Init == mode \in {"ranks", "suit"} /\ b = {} /\ h = {}
Above(S, r) == \A x \in S : x < r
ToBoard(r) == h = {} /\ Above(b, r) /\ Cardinality(b) < 4 /\ b' = b \cup {r} /\ UNCHANGED <<mode, h>>
ToHand(r)  == r \notin b /\ Above(h, r) /\ Cardinality(h) < 2 /\ h' = h \cup {r} /\ UNCHANGED <<mode, b>>
Next == \E r \in 0..12 : ToBoard(r) \/ ToHand(r)
Spec == Init /\ [][Next]_vars

RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN 2^x + Mask(S \ {x})
Made(R) == \E i \in 0..8 : Window(i) \subseteq R
Emit ==
  IF mode = "ranks"
  THEN PrintT(<<"DR", Mask(b), Mask(h), AddUp(StraightDraws(b \cup h, TRUE)), AddUp(StraightDraws(b \cup h, FALSE)),
                IF IsNutStraight(b, b \cup h) THEN 1 ELSE 0>>)
  ELSE PrintT(<<"DS", Mask(b), Mask(h), AddUp(SuitDraws(b, h, TRUE)), AddUp(SuitDraws(b, h, FALSE)),
                IF HoldsNut(b, h) THEN 1 ELSE 0>>)

\* What the flags mean, said another way.
R == b \cup h
SD == StraightDraws(R, TRUE)
Completing == { r \in 0..12 : \E i \in 0..8 : r \in Window(i) /\ Window(i) \subseteq R \cup {r} }
Sane == mode = "ranks" /\ ~Made(R) =>
  \* an open-ended or double gutshot draw has two ranks or more that complete it, any draw at least one
  /\ (OpenEnded \in SD => Cardinality(Completing) >= 2)
  /\ (DoubleGutshot \in SD => Cardinality(Completing) >= 2)
  /\ (Gutshot \in SD /\ ~Four(0) \subseteq R => Cardinality(Completing) >= 1)
  \* and whatever one rank completes is shown as one of the three
  /\ (Completing # {} => SD \cap {OpenEnded, Gutshot, DoubleGutshot} # {})
NutSane == mode = "ranks" /\ IsNutStraight(b, R) =>
  \* the hand does hold a straight, and no two cards make a higher one on this board
  /\ Made(R)
  /\ \A x, y \in 0..12 : \A i \in 0..8 : Window(i) \subseteq b \cup {x, y} => \E j \in i..8 : Window(j) \subseteq R
FlushSane == mode = "suit" => \A flop \in BOOLEAN :
  LET d == SuitDraws(b, h, flop) IN
  /\ ~(FlushDraw \in d /\ BackdoorFlush \in d)
  /\ (NutFlush \in d => d # {NutFlush} /\ h # {})
==================================================================================
