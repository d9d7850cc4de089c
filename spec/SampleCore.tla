-------------------------------- MODULE SampleCore --------------------------------
(***************************************************************************)
(* Workers that sample deals until the estimate is precise enough.  A      *)
(* state of the calculation is a record; this module has the guards and    *)
(* effects of what a worker can do, for the model (SampleWorkers) and for  *)
(* judging recorded runs (SampleTrace) alike.                              *)
(*                                                                         *)
(*   n, sum, sum2  number of portions handed in, the sums of their means   *)
(*                 (the first player's share of the pot, in millionths)    *)
(*                 and of the means' squares, as BigNat                    *)
(*   evals         hands evaluated in them                                 *)
(*   size          of a portion (0: none yet)                              *)
(*   rlock         who holds the results (0: nobody)                       *)
(*   stopped       the workers are to stop;  token  the caller's token     *)
(*   pc            where each worker is                                    *)
(*   mine          per worker: <<hands evaluated, mean>>, not yet handed in*)
(*   since         per worker: portions handed in since stopped            *)
(*   more          per worker: portions begun since stopped or the token   *)
(*                                                                         *)
(* The deviation of the mean of n means is                                 *)
(*         sqrt((sum2 - sum^2 / n) / n^2)                                  *)
(***************************************************************************)
EXTENDS BigNat, Integers, FiniteSets, TLC

Nobody == 0
Sq(x) == BMul(x, x)
Million == BNat(1000000)

Start(workers) ==
  [n |-> 0, sum |-> <<>>, sum2 |-> <<>>, evals |-> 0, size |-> 0, rlock |-> Nobody, stopped |-> FALSE, token |-> FALSE,
   pc |-> [w \in workers |-> "sampling"], mine |-> [w \in workers |-> <<0, 0>>], since |-> [w \in workers |-> 0],
   more |-> [w \in workers |-> 0], returned |-> FALSE]

At(s, w, where) == s.pc[w] = where
Go(s, w, where) == [s EXCEPT !.pc[w] = where]

\* n^2 times the variance of the means, in millionths of millionths.
Spread(s) == BSub(BMul(BNat(s.n), s.sum2), Sq(s.sum))
Cube(n) == BMul(BNat(n), BMul(BNat(n), BNat(n)))
\* The deviation is below t billionths. (A billionth is added to the variance of the sum, so that it is never nothing.)
Precise(s, t) == BLt(BMul(BAdd(Spread(s), BNat(1000 * s.n)), Million), BMul(Sq(BNat(t)), Cube(s.n)))

CanSample(s, w) == At(s, w, "sampling") /\ s.mine[w][1] = 0
Sample(s, w, size, mean) == [s EXCEPT !.mine[w] = <<size, mean>>, !.more[w] = IF s.stopped \/ s.token THEN @ + 1 ELSE @]

CanEnter(s, w, last) == s.rlock = Nobody /\ (IF last THEN At(s, w, "leaving") ELSE At(s, w, "sampling") /\ s.mine[w][1] > 0)
Enter(s, w) == [Go(s, w, IF At(s, w, "leaving") THEN "handinginlast" ELSE "handingin") EXCEPT !.rlock = w]

\* What was sampled becomes part of the estimate; nothing is no part of it.
Added(s, w) ==
  LET m == s.mine[w]
      x == BNat(m[2])
  IN IF m[1] = 0 THEN s
     ELSE [s EXCEPT !.n = @ + 1, !.sum = BAdd(@, x), !.sum2 = BAdd(@, Sq(x)), !.evals = @ + m[1], !.size = IF @ = 0 THEN m[1] ELSE @,
                    !.since[w] = IF s.stopped THEN @ + 1 ELSE @]
CanHandIn(s, w) == s.rlock = w /\ (At(s, w, "handingin") \/ At(s, w, "handinginlast"))
HandIn(s, w, stop) ==
  [Added(s, w) EXCEPT !.mine[w] = <<0, 0>>, !.rlock = Nobody, !.stopped = @ \/ stop,
                      !.pc[w] = IF At(s, w, "handinginlast") THEN "done" ELSE "check"]

CanCheck(s, w) == At(s, w, "check")
Check(s, w) == Go(s, w, IF s.stopped \/ s.token THEN "leaving" ELSE "sampling")
Cancel(s) == [s EXCEPT !.token = TRUE]
CanReturn(s) == ~s.returned /\ \A w \in DOMAIN s.pc : At(s, w, "done")
Return(s) == [s EXCEPT !.returned = TRUE]
===================================================================================
