------------------------------ MODULE ShowdownJudge ------------------------------
(***************************************************************************)
(* Judges recorded exact results, scaled to the smallest whole numbers.    *)
(*   by    : <<players, weight>> for the sets of players who won something *)
(*   wins, ties : per player (ties as shares, in 1/ShareUnit)              *)
(*   hands : per player <<card, card, valid, weight, total, won, tied,     *)
(*           share of ties>> for the hands that are valid or have a count  *)
(***************************************************************************)
EXTENDS Showdown, Judge
Case == Trace[at]
ToScn(c) == [rg |-> c.rg, bd |-> Range(c.bd), dd |-> Range(c.dd)]
By(c) == { <<Range(x[1]), x[2]>> : x \in Range(c.by) }

Accepted ==
  LET c == Case
      s == ToScn(c)
      t == TLCEval(Tally(s))
      sets == SUBSET Players(s) \ {{}}
      rows(p) == { <<CardsOf(s.rg[p][i]), 1, s.rg[p][i][3],
                     HandTotal(s, t, p, i), HandWins(s, t, p, i), HandTies(s, t, p, i), HandTieShare(s, t, p, i)>>
                   : i \in Live(s, p) }
      all  == TLCEval([p \in Players(s) |-> rows(p)])
      g    == GcdOf({ WonBy(t, W) : W \in sets } \cup UNION { {x[4], x[5], x[6]} : x \in UNION { all[p] : p \in Players(s) } })
      got(p) == { <<{x[1], x[2]}, x[3], x[4], x[5], x[6], x[7], x[8]>> : x \in Range(c.hands[p]) }
  IN /\ g > 0
     /\ By(c) = { <<W, WonBy(t, W) \div g>> : W \in { V \in sets : WonBy(t, V) > 0 } }
     /\ \A p \in Players(s) :
          /\ c.wins[p] = WinsOf(t, p) \div g
          /\ c.ties[p] = TieShareOf(s, t, p) \div g
          /\ Cardinality(got(p)) = Len(c.hands[p])
          /\ got(p) = { <<x[1], x[2], x[3], x[4] \div g, x[5] \div g, x[6] \div g, x[7] \div g>> : x \in all[p] }
==================================================================================
