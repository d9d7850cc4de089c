-------------------------------- MODULE SampleJudge --------------------------------
(***************************************************************************)
(* Judges what a sampled calculation dealt in a small scenario:            *)
(*   deals : some of the deals, as <<positions in the players' ranges,     *)
(*           board, weight>>                                               *)
(*   first : <<positions, how often>> for the deals the workers drew anew  *)
(*   n     : how many these were                                           *)
(*   b, m  : the number of portions of m deals the walks were cut into     *)
(*   t, q  : for each player and hand, and for each deal of hands, the     *)
(*           sum over the portions of how often it was dealt, and of the   *)
(*           squares (digits of BigNat)                                    *)
(* Numbers of times are judged against the specification's: the mean, and  *)
(* eight standard deviations and some more around it.                      *)
(***************************************************************************)
EXTENDS Showdown, BigNat, Judge
Case == Trace[at]
ToScn(c) == [rg |-> c.rg, bd |-> Range(c.bd), dd |-> Range(c.dd)]
Sq(x) == BMul(x, x)

\* Drawn k times out of n, with one chance in s.
DrawnOK(k, n, s) ==
  LET d == BDist(BNat(k * s), BNat(n))
      slack == BNat(10 * s)
  IN BLe(d, slack) \/ BLe(Sq(BSub(d, slack)), BMul(BNat(64 * s), BNat(n)))

\* The sum t over b portions of m deals, when o of the s deals of hands are meant.
WalkedOK(t, q, b, m, o, s) ==
  LET d == BDist(BMul(t, BNat(s)), BMul(BMul(BNat(b), BNat(m)), BNat(o)))
      slack == BNat(30 * s)
      bb == BNat(b)
      var == BSub(BMul(bb, q), Sq(t))
      v == IF BLe(var, BMul(bb, t)) THEN BMul(bb, t) ELSE var
  IN BLe(d, slack) \/ BLe(BMul(Sq(BSub(d, slack)), bb), BMul(BMul(BNat(64), Sq(BNat(s))), v))

\* The weights are those of the hands, up to one factor for all.
WeightOK(s, x, y) == BMul(BNat(x[3]), BNat(SelWeight(s, y[1]))) = BMul(BNat(y[3]), BNat(SelWeight(s, x[1])))
DealOK(s, sels, x) == /\ x[1] \in sels
                      /\ Range(x[2]) \in Boards(s, x[1]) /\ Len(x[2]) = 5
                      /\ x[3] > 0

Accepted ==
  LET c == Case
      s == ToScn(c)
      sels == TLCEval(Selections(s))
      k == Cardinality(sels)
      with(p, i) == Cardinality({ d \in sels : d[p] = i })
      times(d) == LET x == { i \in DOMAIN c.first : c.first[i][1] = d } IN IF x = {} THEN 0 ELSE c.first[CHOOSE i \in x : TRUE][2]
  IN /\ \A i \in DOMAIN c.deals : DealOK(s, sels, c.deals[i]) /\ WeightOK(s, c.deals[i], c.deals[1])
     /\ \A i \in DOMAIN c.first : c.first[i][1] \in sels
     /\ \A d \in sels : DrawnOK(times(d), c.n, k)
     /\ \A p \in Players(s) : \A i \in DOMAIN s.rg[p] : WalkedOK(c.t[p][i], c.q[p][i], c.b, c.m, with(p, i), k)
     /\ \A i \in DOMAIN c.joint : WalkedOK(c.joint[i][2], c.joint[i][3], c.b, c.m, IF c.joint[i][1] \in sels THEN 1 ELSE 0, k)
     /\ sels = { c.joint[i][1] : i \in DOMAIN c.joint }
====================================================================================
