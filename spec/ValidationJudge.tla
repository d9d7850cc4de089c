----------------------------- MODULE ValidationJudge -----------------------------
(* Judges recorded decisions on small ranges: [rg, bd, dd, exact, approx]. *)
EXTENDS Validation, Showdown, Judge
Case == Trace[at]
RECURSIVE Deal(_, _, _)
Deal(rg, p, used) ==
  p > Len(rg) \/ \E i \in DOMAIN rg[p] : rg[p][i][3] > 0 /\ CardsOf(rg[p][i]) \cap used = {} /\ Deal(rg, p + 1, used \cup CardsOf(rg[p][i]))
Accepted ==
  LET c == Case
      bd == Range(c.bd)
      dd == Range(c.dd)
      want == Decide(Len(c.rg), Cardinality(bd), Cardinality(dd), Deal(c.rg, 1, bd \cup dd))
  IN c.exact = want /\ c.approx = want
==================================================================================
