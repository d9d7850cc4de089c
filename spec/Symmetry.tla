--------------------------------- MODULE Symmetry ---------------------------------
(***************************************************************************)
(* Renaming the suits of all cards, and reordering the players.            *)
(***************************************************************************)
EXTENDS Showdown, SequencesExt
Renamings == { f \in [Suits -> Suits] : \A a, b \in Suits : a # b => f[a] # f[b] }
Card2(f, c) == 4 * RankOf(c) + f[SuitOf(c)]
Cards2(f, S) == { Card2(f, c) : c \in S }
Hand2(f, h) == LET a == Card2(f, h[1]) b == Card2(f, h[2]) IN IF a > b THEN <<a, b, h[3]>> ELSE <<b, a, h[3]>>
Renamed(s, f) == [rg |-> [p \in DOMAIN s.rg |-> [i \in DOMAIN s.rg[p] |-> Hand2(f, s.rg[p][i])]], bd |-> Cards2(f, s.bd), dd |-> Cards2(f, s.dd)]
\* Player p sits where q[p] says.
Orders(n) == { q \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => q[a] # q[b] }
Back(q) == [k \in DOMAIN q |-> CHOOSE p \in DOMAIN q : q[p] = k]
Reordered(s, q) == [s EXCEPT !.rg = [k \in DOMAIN s.rg |-> s.rg[Back(q)[k]]]]
Seats(W, q) == { q[p] : p \in W }

\* The results the calculation gives: by set of winners, and by player and hand, in the smallest whole numbers.
Outcome(s) ==
  LET t == TLCEval(Tally(s))
      sets == SUBSET Players(s) \ {{}}
  IN [won |-> [W \in sets |-> WonBy(t, W)],
      hand |-> [p \in Players(s) |-> { <<CardsOf(s.rg[p][i]), s.rg[p][i][3], HandTotal(s, t, p, i), HandWins(s, t, p, i), HandTies(s, t, p, i), HandTieShare(s, t, p, i)>>
                                       : i \in Live(s, p) }]]
RenamedOutcome(o, f) == [o EXCEPT !.hand = [p \in DOMAIN @ |-> { <<Cards2(f, x[1]), x[2], x[3], x[4], x[5], x[6]>> : x \in @[p] }]]
ReorderedOutcome(o, q) ==
  [won |-> [W \in DOMAIN o.won |-> o.won[Seats(W, Back(q))]], hand |-> [k \in DOMAIN o.hand |-> o.hand[Back(q)[k]]]]
===================================================================================
