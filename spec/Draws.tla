---------------------------------- MODULE Draws ----------------------------------
(***************************************************************************)
(* What a hand may still become: the draws of hole cards on a board of     *)
(* three or four cards.  cat is the category the hand has made, 0 (high    *)
(* card) to 8 (straight flush).  A draw is a set of flags.                 *)
(*                                                                         *)
(* Straights are looked for with the ace high only.                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets, Cards

OpenEnded == 1      Gutshot == 2      DoubleGutshot == 4   BackdoorStraight == 8
NutStraight == 16   FlushDraw == 32   BackdoorFlush == 64  NutFlush == 128
StraightCat == 4    FlushCat == 5

RanksOf(S) == { RankOf(c) : c \in S }
InSuit(S, u) == { RankOf(c) : c \in { x \in S : SuitOf(x) = u } }

\* The ranks that a straight from i to i + 4 consists of, as far as they exist.
Window(i) == (i..(i + 4)) \cap (0..12)

---------------------------------------------------------------------------
\* Straight draws of a hand with the ranks R, below a straight.
Four(i) == i..(i + 3)
Holds(R, i, pattern) == \A k \in pattern : (i + k) \in R
StraightDraws(R, flop) ==
  { f \in {OpenEnded, Gutshot, DoubleGutshot, BackdoorStraight} :
      \/ f = OpenEnded /\ \E i \in 1..8 : Four(i) \subseteq R                  \* a rank at either end completes it
      \/ f = Gutshot /\ ( \/ \E i \in {0, 9} : Four(i) \subseteq R             \* only one end is left
                          \/ \E i \in 0..8 : i \in R /\ (i + 4) \in R
                                             /\ Cardinality(Window(i) \cap R) >= 4 )
      \/ f = DoubleGutshot /\ \E i \in 0..12 : \/ Holds(R, i, {0, 2, 3, 4, 6})
                                               \/ Holds(R, i, {0, 1, 3, 4, 6, 7})
      \/ f = BackdoorStraight /\ flop /\ \E i \in 0..9 :
             /\ Cardinality(Window(i) \cap R) = 3
             /\ \A j \in {i - 1, i + 1} : Cardinality(Window(j) \cap R) <= 3 }

\* Is a straight in R the highest there can be on a board with the ranks B?
Possible(B) == { i \in 0..8 : Cardinality(Window(i) \cap B) >= 3 }
IsNutStraight(B, R) ==
  Possible(B) # {} /\ Window(CHOOSE i \in Possible(B) : \A j \in Possible(B) : j <= i) \subseteq R

---------------------------------------------------------------------------
\* Flush draws in one suit: the board holds the ranks b of it, the hole cards h.
HoldsNut(b, h) ==
  LET missing == (8..12) \ b
  IN missing # {} /\ (CHOOSE r \in missing : \A x \in missing : x <= r) \in h
SuitDraws(b, h, flop) ==
  LET n == Cardinality(b) + Cardinality(h)
      draws == (IF n = 4 THEN {FlushDraw} ELSE {}) \cup (IF n = 3 /\ flop THEN {BackdoorFlush} ELSE {})
  IN IF draws # {} /\ HoldsNut(b, h) THEN draws \cup {NutFlush} ELSE draws

---------------------------------------------------------------------------
DrawOf(hole, board, cat) ==
  LET flop == Cardinality(board) < 4
      R == RanksOf(hole \cup board)
  IN (IF cat < StraightCat THEN StraightDraws(R, flop) ELSE {})
     \cup (IF cat = StraightCat /\ IsNutStraight(RanksOf(board), R) THEN {NutStraight} ELSE {})
     \cup (IF cat < FlushCat THEN UNION { SuitDraws(InSuit(board, u), InSuit(hole, u), flop) : u \in Suits } ELSE {})
     \cup (IF cat = FlushCat /\ \E u \in Suits : /\ Cardinality(InSuit(board \cup hole, u)) >= 5
                                                 /\ HoldsNut(InSuit(board, u), InSuit(hole, u))
           THEN {NutFlush} ELSE {})

RECURSIVE AddUp(_)
AddUp(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x + AddUp(S \ {x})
DrawByte(hole, board, cat) == AddUp(DrawOf(hole, board, cat))
==================================================================================
