-------------------------------- MODULE Showdown --------------------------------
(***************************************************************************)
(* What an exact calculation means: every way to deal each player a hand   *)
(* of their range and to complete the board, all cards distinct and none   *)
(* of them dead, with the product of the hands' weights; the players with  *)
(* the best hand win, or split.                                            *)
(*                                                                         *)
(* A scenario is [rg : players' ranges, sequences of <<card, card, weight>>*)
(*                bd : set of board cards,  dd : set of dead cards].       *)
(***************************************************************************)
EXTENDS HandRanking, Cards, FiniteSetsExt, Integers, TLC

RcOf(S) == TLCEval([r \in 0..12 |-> Cardinality({ c \in S : RankOf(c) = r })])
FmOf(S) == LET f == { s \in Suits : Cardinality({ c \in S : SuitOf(c) = s }) >= 5 }
           IN IF f = {} THEN {} ELSE { RankOf(c) : c \in { x \in S : SuitOf(x) \in f } }
HandValue(S) == Value(RcOf(S), FmOf(S))

Players(s) == DOMAIN s.rg
CardsOf(h) == {h[1], h[2]}
Used(s) == s.bd \cup s.dd
\* The hands of a range that can be held at all (positions in the range).
Live(s, p) == { i \in DOMAIN s.rg[p] : CardsOf(s.rg[p][i]) \cap Used(s) = {} }

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
GcdOf(S) == FoldSet(Gcd, 0, S)

\* Only the proportions of the weights within a range matter.
Unit(s, p) == LET g == GcdOf({ s.rg[p][i][3] : i \in Live(s, p) }) IN IF g = 0 THEN 1 ELSE g
Weight(s, p, i) == s.rg[p][i][3] \div Unit(s, p)

\* The choices of one hand per player, as sequences of positions, that share no card.
RECURSIVE SelFrom(_, _, _)
SelFrom(s, p, used) ==
  IF p > Len(s.rg) THEN { <<>> }
  ELSE UNION { { <<i>> \o rest : rest \in SelFrom(s, p + 1, used \cup CardsOf(s.rg[p][i])) }
                 : i \in { j \in DOMAIN s.rg[p] : s.rg[p][j][3] > 0 /\ CardsOf(s.rg[p][j]) \cap used = {} } }
Selections(s) == SelFrom(s, 1, Used(s))

CardsDealt(s, sel) == UNION { CardsOf(s.rg[p][sel[p]]) : p \in Players(s) }
Boards(s, sel) == { s.bd \cup x : x \in kSubset(5 - Cardinality(s.bd), Deck \ (Used(s) \cup CardsDealt(s, sel))) }

Winners(s, sel, b) ==
  LET v == TLCEval([p \in Players(s) |-> HandValue(b \cup CardsOf(s.rg[p][sel[p]]))])
  IN { p \in Players(s) : \A q \in Players(s) : v[p] >= v[q] }

RECURSIVE WeightFrom(_, _, _)
WeightFrom(s, sel, p) == IF p > Len(s.rg) THEN 1 ELSE Weight(s, p, sel[p]) * WeightFrom(s, sel, p + 1)
SelWeight(s, sel) == WeightFrom(s, sel, 1)

Sum(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)

\* For each choice of hands, the weight won by each set of players.
Tally(s) ==
  LET sels == Selections(s)
      sets == SUBSET Players(s) \ {{}}
      one(sel) == LET bs  == Boards(s, sel)
                      win == TLCEval([b \in bs |-> Winners(s, sel, b)])
                      w   == SelWeight(s, sel)
                  IN TLCEval([W \in sets |-> w * Cardinality({ b \in bs : win[b] = W })])
  IN TLCEval([sel \in sels |-> one(sel)])

ShareUnit == 2520                  \* a multiple of 1..9
WonBy(t, W) == Sum(DOMAIN t, LAMBDA sel : t[sel][W])
WinsOf(t, p) == WonBy(t, {p})
TiedSets(s, p) == { W \in SUBSET Players(s) : p \in W /\ Cardinality(W) > 1 }
TieShareOf(s, t, p) == Sum(TiedSets(s, p), LAMBDA W : WonBy(t, W) * (ShareUnit \div Cardinality(W)))
\* The results of the hand at position i of player p's range.
OfHand(t, p, i) == { sel \in DOMAIN t : sel[p] = i }
HandTotal(s, t, p, i) == Sum(OfHand(t, p, i), LAMBDA sel : Sum(DOMAIN t[sel], LAMBDA W : t[sel][W]))
HandWins(s, t, p, i) == Sum(OfHand(t, p, i), LAMBDA sel : t[sel][{p}])
HandTies(s, t, p, i) == Sum(OfHand(t, p, i), LAMBDA sel : Sum(TiedSets(s, p), LAMBDA W : t[sel][W]))
HandTieShare(s, t, p, i) ==
  Sum(OfHand(t, p, i), LAMBDA sel : Sum(TiedSets(s, p), LAMBDA W : t[sel][W] * (ShareUnit \div Cardinality(W))))
=================================================================================
