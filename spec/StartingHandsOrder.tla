--------------------------- MODULE StartingHandsOrder ---------------------------
(***************************************************************************)
(* The 1326 starting hands, the 169 classes they fall into, and the order  *)
(* in which both are published.                                            *)
(***************************************************************************)
EXTENDS Cards

Pair == "pair"   Suited == "suited"   Offsuit == "offsuit"

\* A class: kind, higher rank, lower rank.
PairClasses == [i \in 1..13 |-> <<Pair, 13 - i, 13 - i>>]
\* The pairs of ranks hi > lo, aces first, each with its kickers downward.
RECURSIVE RankPairs(_, _)
RankPairs(hi, lo) == IF hi = 0 THEN <<>>
                     ELSE IF lo < 0 THEN RankPairs(hi - 1, hi - 2)
                     ELSE << <<hi, lo>> >> \o RankPairs(hi, lo - 1)
TwoRanks == RankPairs(12, 11)
ClassList == PairClasses
             \o [i \in 1..78 |-> <<Suited, TwoRanks[i][1], TwoRanks[i][2]>>]
             \o [i \in 1..78 |-> <<Offsuit, TwoRanks[i][1], TwoRanks[i][2]>>]

\* The hands of a class, as ordered pairs of cards (higher rank first), in order.
SuitPairs == << <<0,1>>, <<0,2>>, <<0,3>>, <<1,2>>, <<1,3>>, <<2,3>> >>
OffPairs  == << <<0,1>>, <<0,2>>, <<0,3>>, <<1,0>>, <<1,2>>, <<1,3>>,
                <<2,0>>, <<2,1>>, <<2,3>>, <<3,0>>, <<3,1>>, <<3,2>> >>
HandsOfClass(cl) ==
  LET card(r, s) == 4 * r + s IN
  CASE cl[1] = Pair    -> [i \in 1..6  |-> <<card(cl[2], SuitPairs[i][1]), card(cl[3], SuitPairs[i][2])>>]
    [] cl[1] = Suited  -> [i \in 1..4  |-> <<card(cl[2], i - 1), card(cl[3], i - 1)>>]
    [] cl[1] = Offsuit -> [i \in 1..12 |-> <<card(cl[2], OffPairs[i][1]), card(cl[3], OffPairs[i][2])>>]

ClassName(cl) == RankStr[cl[2] + 1] \o RankStr[cl[3] + 1]
                 \o (CASE cl[1] = Pair -> "" [] cl[1] = Suited -> "s" [] cl[1] = Offsuit -> "o")
HandName(h) == CardStr(h[1]) \o CardStr(h[2])

BlockSize(k) == IF k <= 13 THEN 6 ELSE IF k <= 91 THEN 4 ELSE 12     \* of class number k in 1..169
\* Index of the first hand of class number k (from 1): consecutive blocks.
BlockStart(k) == IF k <= 13 THEN 6 * (k - 1)
                 ELSE IF k <= 91 THEN 78 + 4 * (k - 14)
                 ELSE 390 + 12 * (k - 92)

\* The class of a hand, from its cards alone.
ClassOf(a, b) ==
  LET hi == IF RankOf(a) >= RankOf(b) THEN a ELSE b
      lo == IF hi = a THEN b ELSE a
  IN IF RankOf(a) = RankOf(b) THEN <<Pair, RankOf(a), RankOf(a)>>
     ELSE IF SuitOf(a) = SuitOf(b) THEN <<Suited, RankOf(hi), RankOf(lo)>>
     ELSE <<Offsuit, RankOf(hi), RankOf(lo)>>
\* The index of a hand, from its cards alone, in closed form.
ClassNumber(cl) == CHOOSE n \in 1..169 : ClassList[n] = cl
IndexOfHand(a, b) ==
  LET cl == ClassOf(a, b)
      n  == ClassNumber(cl)
      hs == HandsOfClass(cl)
  IN BlockStart(n) + (CHOOSE m \in DOMAIN hs : {hs[m][1], hs[m][2]} = {a, b}) - 1

\* The class (from 0) that the index falls into, and the hand it stands for.
ClassOfIndex(i) == IF i < 78 THEN i \div 6 ELSE IF i < 390 THEN 13 + (i - 78) \div 4 ELSE 91 + (i - 390) \div 12
SizeOfClass(n) == BlockSize(n + 1)
HandAt(i) == LET n == ClassOfIndex(i) IN HandsOfClass(ClassList[n + 1])[i - BlockStart(n + 1) + 1]
=================================================================================
