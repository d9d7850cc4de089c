--------------------------------- MODULE Results ---------------------------------
(***************************************************************************)
(* When a result is consistent with itself.  Counts are BigNat numbers.    *)
(* Fractions are recorded as whole numbers:                                *)
(*   shares of split pots  in 1/ShareUnit of the unit of the counts        *)
(*   equities and rates    in 1/10^12                                      *)
(* and are compared up to rounding, one part in 10^8.                      *)
(*                                                                         *)
(* A result r has                                                          *)
(*   n      number of players          nb   number of board cards          *)
(*   by     sequence of <<set of winners, weight>>, one for each set       *)
(*   wins, ties, eq   per player: weight won, share of ties, equity        *)
(*   hands  per player: rows [i, v, k, d, w, t, x, y, c, e, p, q] for the  *)
(*          hands with any entry other than that of a hand not held:       *)
(*          index, valid, category, draw, weight, total, wins, ties, share *)
(*          of ties, equity, win rate, tie rate                            *)
(*   classes, ranks, draws  per player: rows of the same fields            *)
(*   bad    fields that are not finite, or negative                        *)
(***************************************************************************)
EXTENDS BigNat, StartingHandsOrder, FiniteSets, TLC

SU == BNat(2520)                       \* ShareUnit
One == <<0, 0, 0, 1>>                  \* 10^12
Slack == <<0, 1>>                      \* 10^4: 10^12 parts per 10^8
Tiny == <<0, 0, 1>>                    \* 10^8

BSum(s, f(_)) == LET RECURSIVE From(_)
                     From(i) == IF i > Len(s) THEN <<>> ELSE BAdd(f(s[i]), From(i + 1))
                 IN From(1)
NSum(s, f(_)) == LET RECURSIVE From(_)
                     From(i) == IF i > Len(s) THEN 0 ELSE f(s[i]) + From(i + 1)
                 IN From(1)

\* Two shares that were added up from parts of total.
ShareEq(a, b, total) == BLe(BMul(BDist(a, b), Tiny), BAdd(BMul(total, SU), Tiny))
\* e is the fraction (2520 * whole + share) / (2520 * total).
FracOf(e, whole, share, total) ==
  LET den == BMul(total, SU)
  IN BLe(BDist(BMul(e, den), BMul(One, BAdd(BMul(whole, SU), share))), BMul(den, Slack))
\* e is the fraction part / total.
RateOf(e, part, total) == FracOf(e, part, <<>>, total)
ShareRateOf(e, share, total) == FracOf(e, <<>>, share, total)

Total(r) == BSum(r.by, LAMBDA x : x[2])
SelectSets(r, P(_)) == SelectSeq(r.by, LAMBDA x : P(x[1]))
SumSets(r, P(_)) == BSum(SelectSets(r, P), LAMBDA x : x[2])
In(x, s) == \E i \in DOMAIN s : s[i] = x

ZeroCounts(u) == u.t = <<>> /\ u.x = <<>> /\ u.y = <<>> /\ u.c = <<>>
ZeroFracs(u) == u.e = <<>> /\ u.p = <<>> /\ u.q = <<>>
\* A unit's own counts fit together.
Sound(u) == /\ BLe(BAdd(u.x, u.y), u.t)
            /\ BLe(BMul(BMul(u.c, <<2>>), Tiny), BAdd(BMul(BMul(u.y, SU), BAdd(Tiny, <<1>>)), Tiny))
            /\ (u.y = <<>> => u.c = <<>>)
Quotients(u) == IF u.t = <<>> THEN ZeroFracs(u)
                ELSE FracOf(u.e, u.x, u.c, u.t) /\ RateOf(u.p, u.x, u.t) /\ RateOf(u.q, u.y, u.t)

---------------------------------------------------------------------------
(* C10 *)
Consistent(r) ==
  LET total == Total(r) IN
  /\ r.bad = <<>>
  /\ total # <<>>
  /\ \A i \in DOMAIN r.by : r.by[i][1] # <<>> /\ \A p \in DOMAIN r.by[i][1] : r.by[i][1][p] \in 1..r.n
  /\ BLe(BDist(BSum(r.eq, LAMBDA x : x), One), Slack)
  /\ \A p \in 1..r.n :
       LET tied == SelectSets(r, LAMBDA W : In(p, W) /\ Len(W) > 1)
           hs == r.hands[p]
       IN /\ BLe(r.eq[p], One)
          /\ r.wins[p] = SumSets(r, LAMBDA W : W = <<p>>)
          /\ ShareEq(r.ties[p], BSum(tied, LAMBDA x : BMul(x[2], BNat(2520 \div Len(x[1])))), total)
          /\ FracOf(r.eq[p], r.wins[p], r.ties[p], total)
          /\ BSum(hs, LAMBDA u : u.t) = total
          /\ BSum(hs, LAMBDA u : u.x) = r.wins[p]
          /\ BSum(hs, LAMBDA u : u.y) = BSum(tied, LAMBDA x : x[2])
          /\ ShareEq(BSum(hs, LAMBDA u : u.c), r.ties[p], total)
          /\ \A i \in DOMAIN hs : Sound(hs[i]) /\ Quotients(hs[i]) /\ (~hs[i].v => ZeroCounts(hs[i]))
          /\ \A i \in DOMAIN r.classes[p] : Quotients(r.classes[p][i])

---------------------------------------------------------------------------
(* C11 *)
Rows(s, k) == SelectSeq(s, LAMBDA u : u.i = k)
ClassesOK(r) ==
  /\ r.bad = <<>>
  /\ \A p \in 1..r.n : \A k \in 0..168 :
       LET dealt == SelectSeq(r.hands[p], LAMBDA u : u.v /\ u.t # <<>> /\ ClassOfIndex(u.i) = k)
           cl == Rows(r.classes[p], k)
       IN IF dealt = <<>> THEN cl = <<>>                       \* not valid, zero throughout
          ELSE /\ Len(cl) = 1
               /\ LET u == cl[1]
                      total == BSum(dealt, LAMBDA x : x.t)
                  IN /\ u.v
                     /\ u.t = total
                     /\ u.x = BSum(dealt, LAMBDA x : x.x)
                     /\ u.y = BSum(dealt, LAMBDA x : x.y)
                     /\ ShareEq(u.c, BSum(dealt, LAMBDA x : x.c), total)
                     /\ u.w = NSum(dealt, LAMBDA x : x.w) \div SizeOfClass(k)
                     /\ Quotients(u)

---------------------------------------------------------------------------
(* C12 *)
Bit(d, k) == (d \div 2^k) % 2 = 1
NoCategory == 255
\* The ten draw groups: seven flags, then the nut flag as backdoor draw, draw, and made flush.
InGroup(d, k) == CASE k <= 6 -> Bit(d, k)
                   [] k = 7  -> Bit(d, 7) /\ Bit(d, 6)
                   [] k = 8  -> Bit(d, 7) /\ Bit(d, 5)
                   [] k = 9  -> Bit(d, 7) /\ ~Bit(d, 6) /\ ~Bit(d, 5)
\* A group is the sum of its hands; its tie rate is its share of ties over its total.
GroupOK(rows, k, hs) ==
  LET total == BSum(hs, LAMBDA x : x.t)
      g == Rows(rows, k)
  IN IF total = <<>> THEN g = <<>>
     ELSE /\ Len(g) = 1
          /\ LET u == g[1] IN
             /\ u.t = total
             /\ u.x = BSum(hs, LAMBDA x : x.x)
             /\ u.y = BSum(hs, LAMBDA x : x.y)
             /\ ShareEq(u.c, BSum(hs, LAMBDA x : x.c), total)
             /\ u.w = NSum(hs, LAMBDA x : x.w)
             /\ FracOf(u.e, u.x, u.c, u.t) /\ RateOf(u.p, u.x, u.t) /\ ShareRateOf(u.q, u.c, u.t)

BoardOK(r, category(_), draw(_, _)) ==
  /\ r.bad = <<>>
  /\ \A p \in 1..r.n :
       LET valid == SelectSeq(r.hands[p], LAMBDA u : u.v)
       IN IF r.nb < 3 THEN r.ranks[p] = <<>> /\ r.draws[p] = <<>> /\ \A i \in DOMAIN valid : valid[i].k = NoCategory /\ valid[i].d = 0
          ELSE /\ \A i \in DOMAIN valid : /\ valid[i].k = category(valid[i].i)
                                          /\ valid[i].d = (IF r.nb = 5 THEN 0 ELSE draw(valid[i].i, valid[i].k))
               /\ \A k \in 0..8 : GroupOK(r.ranks[p], k, SelectSeq(valid, LAMBDA u : u.k = k))
               /\ \A k \in 0..9 : GroupOK(r.draws[p], k, SelectSeq(valid, LAMBDA u : InGroup(u.d, k)))
               /\ (r.nb = 5 => r.draws[p] = <<>>)
==================================================================================
