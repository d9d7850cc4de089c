------------------------------ MODULE FastDivJudge ------------------------------
(* Judges recorded divisions: n by d gave q (and by the operator, p). *)
EXTENDS BigNat, Judge
Accepted == LET c == Trace[at] IN IsQuotient(c.q, c.n, c.d) /\ c.p = c.q
=================================================================================
