-------------------------------- MODULE BoardEnum --------------------------------
(***************************************************************************)
(* How an exact calculation completes the board without looking at every   *)
(* completion.  A suit in which no player can get a flush any more does    *)
(* not matter: of the cards of one rank in such suits only how many are    *)
(* dealt does, so one choice of that many stands for all of them, with     *)
(* the number of choices as its weight.                                    *)
(*                                                                         *)
(* The deck, the number of board cards and the number of cards a flush     *)
(* takes are parameters, so that small decks can be searched completely.   *)
(*                                                                         *)
(* The machine goes through the deck from the highest rank to the lowest.  *)
(*   board   cards of the board so far      left   how many are missing    *)
(*   rank    the rank at hand               weight completions stood for   *)
(* A completed board is a leaf of the tree of its behaviours.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Ranks, Suits, BoardSize, FlushSize

RankOf(c) == c[1]
SuitOf(c) == c[2]
Deck == Ranks \X Suits
Max2(S) == CHOOSE x \in S : \A y \in S : y <= x

\* The most cards of a suit that a player holds.
MostHeld(holes, u) == Max2({0} \cup { Cardinality({ c \in h : SuitOf(c) = u }) : h \in holes })
InSuit(S, u) == Cardinality({ c \in S : SuitOf(c) = u })
\* Can somebody still get a flush in the suit, with so many cards to come?
Matters(holes, board, u, left) == MostHeld(holes, u) + InSuit(board, u) + left >= FlushSize

Choose(n, k) == Cardinality(kSubset(k, 1..n))

(***************************************************************************)
(* The boards the machine comes to, with weights: a set of <<board,        *)
(* weight>> that are all different.  suits(board, left) are those treated  *)
(* as mattering.                                                           *)
(***************************************************************************)
Below(S, r) == { c \in S : RankOf(c) < r }
Completions(holes, fixed, used, suits(_, _)) ==
  LET RECURSIVE From(_, _, _, _)
      From(board, left, r, weight) ==
        IF left = 0 THEN { <<board, weight>> }
        ELSE IF r < 0 THEN {}
        ELSE LET here  == { c \in Deck \ used : RankOf(c) = r }
                 m     == { c \in here : SuitOf(c) \in suits(board, left) }
                 rest  == here \ m
                 \* some of those that matter, and so many of the others
                 take  == { <<S, k>> \in (SUBSET m) \X (0..Cardinality(rest)) : Cardinality(S) + k <= left }
                 stand(k) == CHOOSE T \in SUBSET rest : Cardinality(T) = k
             IN UNION { From(board \cup x[1] \cup stand(x[2]), left - Cardinality(x[1]) - x[2], r - 1,
                             weight * Choose(Cardinality(rest), x[2])) : x \in take }
  IN From(fixed, BoardSize - Cardinality(fixed), Max2(Ranks), 1)

\* What decides who wins: how often each rank is there, and each player's flush.
FlushOf(S) == UNION { {<<u, c[1]>> : c \in { d \in S : SuitOf(d) = u } } : u \in { v \in Suits : InSuit(S, v) >= FlushSize } }
View(holes, board) == << [r \in Ranks |-> Cardinality({ c \in board : RankOf(c) = r })], [h \in holes |-> FlushOf(h \cup board)] >>

AllBoards(fixed, used) == { fixed \cup x : x \in kSubset(BoardSize - Cardinality(fixed), Deck \ used) }
==================================================================================
