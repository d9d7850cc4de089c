---------------------------- MODULE HandRanking ----------------------------
(***************************************************************************)
(* The ranking of Texas hold'em hands, as the rules of poker define it.    *)
(*                                                                         *)
(* A hand of two to seven cards is abstracted to                           *)
(*    rc : [0..12 -> 0..4]  how many cards of each rank it holds, and      *)
(*    fm \in SUBSET 0..12   the ranks it holds in the one suit of which it *)
(*                          has five or more cards ({} if there is none).  *)
(* Nothing else about the cards matters: that the implementation's score   *)
(* is a function of this abstraction is checked by conformance, on every   *)
(* concrete hand.                                                          *)
(*                                                                         *)
(* Value(rc, fm) is a natural number: two hands compare exactly as their   *)
(* values do, and Value \div VBase is the category, 1 (high card) to 9     *)
(* (straight flush).  A hand of fewer than five cards is ranked on the     *)
(* cards it has, a missing kicker being lower than any card.               *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

Ranks == 0..12                     \* 0 = deuce ... 12 = ace
B     == 14                        \* digits 0 (no card), 1..13 (rank + 1)
VBase == B * B * B * B * B

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Kick(_, _)
\* The n highest ranks of S as base-B digits, padded with 0.
Kick(S, n) ==
  IF n = 0 THEN 0
  ELSE IF S = {} THEN 0
  ELSE LET m == MaxOf(S)
           RECURSIVE Pow(_)
           Pow(k) == IF k = 0 THEN 1 ELSE B * Pow(k - 1)
       IN (m + 1) * Pow(n - 1) + Kick(S \ {m}, n - 1)

\* Rank+1 of the top card of the best straight in S; 0 if there is none.
\* The ace is low in 5-4-3-2-A only.
StraightTop(S) ==
  LET tops == { t \in 4..12 : \A k \in 0..4 : (t - k) \in S }
  IN IF tops # {} THEN MaxOf(tops) + 1
     ELSE IF {12, 0, 1, 2, 3} \subseteq S THEN 4
     ELSE 0

HighCard == 1   OnePair == 2   TwoPair == 3   Trips == 4   Straight == 5
Flush == 6      FullHouse == 7 Quads == 8     StraightFlush == 9

Val(cat, d) == cat * VBase + d

Value(rc, fm) ==
  LET ranks == { r \in Ranks : rc[r] >= 1 }
      quads == { r \in Ranks : rc[r] = 4 }
      trips == { r \in Ranks : rc[r] = 3 }
      pairs == { r \in Ranks : rc[r] = 2 }
      sft   == StraightTop(fm)
      st    == StraightTop(ranks)
  IN CASE sft > 0     -> Val(StraightFlush, sft)
       [] sft = 0 /\ quads # {} ->
            LET q == MaxOf(quads)
            IN Val(Quads, (q + 1) * B + Kick(ranks \ {q}, 1))
       [] sft = 0 /\ quads = {} /\ trips # {} /\ (Cardinality(trips) >= 2 \/ pairs # {}) ->
            LET t == MaxOf(trips)
                p == MaxOf((trips \ {t}) \cup pairs)
            IN Val(FullHouse, (t + 1) * B + (p + 1))
       [] OTHER ->
            IF fm # {} THEN Val(Flush, Kick(fm, 5))
            ELSE IF st > 0 THEN Val(Straight, st)
            ELSE IF trips # {} THEN
              LET t == MaxOf(trips)
              IN Val(Trips, (t + 1) * B * B + Kick(ranks \ {t}, 2))
            ELSE IF Cardinality(pairs) >= 2 THEN
              LET p == MaxOf(pairs)
                  q == MaxOf(pairs \ {p})
              IN Val(TwoPair, (p + 1) * B * B + (q + 1) * B + Kick(ranks \ {p, q}, 1))
            ELSE IF pairs # {} THEN
              LET p == MaxOf(pairs)
              IN Val(OnePair, (p + 1) * B * B * B + Kick(ranks \ {p}, 3))
            ELSE Val(HighCard, Kick(ranks, 5))

CategoryOf(v) == v \div VBase

---------------------------------------------------------------------------
(* The definition proper: the value of a hand of five or more cards is the *)
(* best value of a five-card hand that can be made from it.  Five-card     *)
(* hands are ranked directly by the shape of their rank counts.            *)

\* Number of cards in a rank-count function.
RECURSIVE SumUpTo(_, _)
SumUpTo(rc, k) == IF k < 0 THEN 0 ELSE rc[k] + (IF k = 0 THEN 0 ELSE SumUpTo(rc, k - 1))
Size(rc) == SumUpTo(rc, 12)

\* five: [Ranks -> 0..4] summing to 5; suited: all five in one suit
Value5(five, suited) ==
  LET of(n)  == { r \in Ranks : five[r] = n }
      any    == { r \in Ranks : five[r] >= 1 }
      n(k)   == Cardinality(of(k))
      top    == StraightTop(any)
  IN CASE suited /\ top > 0               -> Val(9, top)
       [] n(4) = 1                        -> Val(8, Kick(of(4), 1) * B + Kick(of(1), 1))
       [] n(3) = 1 /\ n(2) = 1            -> Val(7, Kick(of(3), 1) * B + Kick(of(2), 1))
       [] suited /\ top = 0               -> Val(6, Kick(any, 5))
       [] ~suited /\ top > 0              -> Val(5, top)
       [] n(3) = 1 /\ n(2) = 0            -> Val(4, Kick(of(3), 1) * B * B + Kick(of(1), 2))
       [] n(2) = 2                        -> Val(3, Kick(of(2), 2) * B + Kick(of(1), 1))
       [] n(2) = 1 /\ n(3) = 0            -> Val(2, Kick(of(2), 1) * B * B * B + Kick(of(1), 3))
       [] ~suited /\ top = 0 /\ n(1) = 5  -> Val(1, Kick(any, 5))

\* The five-card sub-hands of rc, by removing Size(rc) - 5 cards.
RECURSIVE Subhands(_, _)
Subhands(rc, drop) ==
  IF drop = 0 THEN {rc}
  ELSE UNION { Subhands([rc EXCEPT ![r] = @ - 1], drop - 1) : r \in { x \in Ranks : rc[x] > 0 } }

\* Best of five, counting that a flush is available on the ranks in fm only.
BestOfFive(rc, fm) ==
  LET plain  == { Value5(h, FALSE) : h \in Subhands(rc, Size(rc) - 5) }
      flushy == { Value5([r \in Ranks |-> IF r \in f THEN 1 ELSE 0], TRUE)
                    : f \in { g \in SUBSET fm : Cardinality(g) = 5 } }
  IN MaxOf(plain \cup flushy)
=============================================================================
