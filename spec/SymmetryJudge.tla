------------------------------- MODULE SymmetryJudge -------------------------------
(***************************************************************************)
(* Judges pairs of recorded exact results: b is of a's scenario with the   *)
(* suits renamed by f (suit s becomes f[s + 1]) and the players reordered  *)
(* by q (player p becomes player q[p]).  Results are in the smallest whole *)
(* numbers, as in ShowdownJudge.                                           *)
(***************************************************************************)
EXTENDS Symmetry, Judge
Case == Trace[at]
ToScn(c) == [rg |-> c.rg, bd |-> Range(c.bd), dd |-> Range(c.dd)]
By(c) == { <<Range(x[1]), x[2]>> : x \in Range(c.by) }
Rows(c, p) == { <<{x[1], x[2]}, x[3], x[4], x[5], x[6], x[7], x[8]>> : x \in Range(c.hands[p]) }
SetOfHands(s, p) == { <<CardsOf(h), h[3]>> : h \in Range(s.rg[p]) }
Accepted ==
  LET a == Case.a
      b == Case.b
      f == [s \in Suits |-> Case.f[s + 1]]
      q == Case.q
      sa == Reordered(Renamed(ToScn(a), f), q)
      sb == ToScn(b)
  IN /\ f \in Renamings /\ q \in Orders(Len(a.rg))
     \* it is the scenario it should be
     /\ sa.bd = sb.bd /\ sa.dd = sb.dd /\ \A p \in Players(sb) : SetOfHands(sa, p) = SetOfHands(sb, p)
     \* and so are the results
     /\ By(b) = { <<Seats(x[1], q), x[2]>> : x \in By(a) }
     /\ \A p \in Players(sb) :
          /\ b.wins[q[p]] = a.wins[p] /\ b.ties[q[p]] = a.ties[p]
          /\ Rows(b, q[p]) = { <<Cards2(f, x[1]), x[2], x[3], x[4], x[5], x[6], x[7]>> : x \in Rows(a, p) }
====================================================================================
