-------------------------------- MODULE SampleTrace --------------------------------
(***************************************************************************)
(* Judges recorded runs of the sampled calculation that were not cancelled:*)
(* the events of all workers in one order have to be a behaviour of the    *)
(* workers of SampleCore, and the results what it leaves.  Events:         *)
(*   <<"L", w>> locked the results                                         *)
(*   <<"H", w, last, evals, mean, n, deviation, stop>> handed in evals     *)
(*      hands with this mean (millionths); from then on the results have   *)
(*      n portions and the deviation (billionths), and are to stop or not  *)
(*   <<"C", w, stop>> had looked whether to stop   <<"E", w>> is done      *)
(* target is in billionths; result is <<n, sum, sum2, evals, deviation>>,  *)
(* the sums in millionths and millionths of millionths (digits).           *)
(* A deviation need only be near the one computed, and the worker may be   *)
(* told to stop a while after the target has been reached, not before.     *)
(* What a worker saw is recorded some time after it looked: it may have    *)
(* missed a word to stop that was given since it handed in, and may have   *)
(* seen one by whoever holds the results.                                  *)
(***************************************************************************)
EXTENDS SampleCore, Judge
CONSTANTS Least, Patience
Case == Trace[at]
Bad == [bad |-> TRUE]
IsBad(x) == "bad" \in DOMAIN x

\* d is within a tenth of the deviation (a fifth of its square), but for rounding.
DeviationOK(s, d) ==
  LET got == BMul(Sq(BNat(d)), Cube(s.n))                    \* in billionths of billionths
      low == BMul(Spread(s), Million)
      high == BMul(BAdd(Spread(s), BNat(2000 * s.n)), Million)
      slack == BMul(Million, BMul(BNat(s.n), BNat(100 * s.n)))
  IN /\ BLe(BMul(low, BNat(8)), BAdd(BMul(got, BNat(10)), slack))
     /\ BLe(BMul(got, BNat(10)), BAdd(BMul(high, BNat(12)), slack))
\* Below the target, by the deviation the code has.
Below(d, target) == d <= target

Apply(x, e, target) ==
  LET s == x.s
      w == e[2]
      ok(t) == [x EXCEPT !.s = t]
      here(t, where) == Go(t, w, where)
  IN CASE e[1] = "L" -> IF s.rlock = Nobody THEN ok([s EXCEPT !.rlock = w]) ELSE Bad
       [] e[1] = "H" ->
            LET last == e[3]
                a == [here(s, IF last THEN "handinginlast" ELSE "handingin") EXCEPT !.mine[w] = <<e[4], e[5]>>]
                t == Added(a, w)
                u == HandIn(a, w, e[8])
                d == e[7]
            IN IF /\ s.rlock = w /\ (At(s, w, "sampling") \/ (last /\ At(s, w, "leaving")))
                  \* all portions are of the same size
                  /\ (e[4] > 0 => s.size \in {0, e[4]})
                  /\ e[6] = t.n
                  /\ (t.n > 0 => DeviationOK(t, d))
                  \* told to stop: with reason
                  /\ (s.stopped => e[8])
                  /\ (e[8] /\ ~s.stopped => t.n >= Least /\ Below(d, target))
                  /\ (~e[8] /\ t.n >= Patience => d * 2 >= target)
                  /\ u.since[w] <= 2
               THEN [x EXCEPT !.s = u, !.knew[w] = u.stopped] ELSE Bad
       [] e[1] = "C" -> IF At(s, w, "check") /\ (IF e[3] THEN s.stopped \/ s.rlock # Nobody ELSE ~x.knew[w])
                        THEN ok(here(s, IF e[3] THEN "leaving" ELSE "sampling")) ELSE Bad
       [] e[1] = "E" -> IF At(s, w, "done") /\ s.stopped THEN ok(s) ELSE Bad

(***************************************************************************)
(* Case number at is walked event by event.                                *)
(***************************************************************************)
\* knew: whether the worker was told to stop when it handed in.
VARIABLES i, x
TraceInit == at \in 1..N /\ i = 0 /\ x = [s |-> Start(1..Case.workers), knew |-> [w \in 1..Case.workers |-> FALSE]]
TraceNext == ~IsBad(x) /\ i < Len(Case.ev) /\ i' = i + 1 /\ x' = Apply(x, Case.ev[i + 1], Case.target) /\ UNCHANGED at
TraceSpec == TraceInit /\ [][TraceNext]_<<at, i, x>>

\* The sums reported, up to the rounding of each mean.
NearSum(s, got) == BLe(BDist(s.sum, got), BNat(s.n + 1))
NearSum2(s, got) == BLe(BDist(s.sum2, got), BMul(BNat(3 * s.n + 3), Million))
ResultOK(s, r) ==
  /\ CanReturn(s)
  /\ r[1] = s.n /\ NearSum(s, r[2]) /\ NearSum2(s, r[3]) /\ r[4] = s.evals
  /\ DeviationOK(s, r[5])
  \* alone, nothing comes after the portion that reached the target
  /\ (Case.workers = 1 => Below(r[5], Case.target))
  \* and others hand in only the portion they were at
  /\ (s.n >= 100 => 2 * r[5] <= 3 * Case.target)
Accepted == ~IsBad(x) /\ (i = Len(Case.ev) => ResultOK(x.s, Case.result))
====================================================================================
