---------------------------------- MODULE Weights ----------------------------------
(***************************************************************************)
(* How the weights of hands count, as operations on scenarios: a range's   *)
(* weights times a factor, a hand of weight 0 more, a hand's weight        *)
(* doubled.  The first two leave every share of the pot as it is.          *)
(***************************************************************************)
EXTENDS Showdown
Scaled(s, p, f) == [s EXCEPT !.rg[p] = [i \in DOMAIN @ |-> <<@[i][1], @[i][2], @[i][3] * f>>]]
WithZero(s, p, h) == [s EXCEPT !.rg[p] = Append(@, <<h[1], h[2], 0>>)]
WithWeight(s, p, i, w) == [s EXCEPT !.rg[p][i][3] = w]
All(t) == Sum(DOMAIN t, LAMBDA sel : Sum(DOMAIN t[sel], LAMBDA W : t[sel][W]))
Sets(s) == SUBSET Players(s) \ {{}}
\* Each set of players wins the same share.
SameShares(s, a, b) == \A W \in Sets(s) : WonBy(a, W) * All(b) = WonBy(b, W) * All(a)
\* What a hand was dealt, for each set of winners, in units of the scenario's own weights.
HandWonBy(t, p, i, W) == Sum(OfHand(t, p, i), LAMBDA sel : t[sel][W])
SameHands(s, a, b, p) == \A i \in DOMAIN s.rg[p] : \A W \in Sets(s) :
  HandWonBy(a, p, i, W) * All(b) = HandWonBy(b, p, i, W) * All(a)
====================================================================================
