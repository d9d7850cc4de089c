------------------------------ MODULE RangeValueJudge ------------------------------
(* Judges recorded uses of ranges: s is the list before, r the list after. *)
EXTENDS RangeValue, Judge
Case == Trace[at]
\* Weights are those of the case: equal hands keep their order.
Numbered(R) == [i \in DOMAIN R |-> <<R[i][1], R[i][2], i>>]
Told(S, R) == [i \in DOMAIN S |-> R[S[i][3]]]
Accepted ==
  CASE Case.f = "filter" -> Case.r = Without(Case.s, Range(Case.b) \cup Range(Case.d))
    [] Case.f = "sort"   -> LET S == Ascending(Numbered(Case.s)) IN
                            /\ Case.r = Told(S, Case.s)
                            /\ Case.o = Told(OncePerRun(S), Case.s)
====================================================================================
