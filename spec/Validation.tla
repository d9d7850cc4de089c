-------------------------------- MODULE Validation --------------------------------
(***************************************************************************)
(* What a calculation, exact or sampled, does with an input: the error     *)
(* that names the first thing wrong with it, or a result.                  *)
(*   n players, nb board cards, nd dead cards;  dealable: everyone can be  *)
(*   dealt a hand of weight > 0 of their range together                    *)
(***************************************************************************)
EXTENDS Naturals
Complaints(n, nb, nd, dealable) ==
  << <<"TooFewPlayers", n < 2>>, <<"TooManyPlayers", n > 9>>, <<"TooManyBoardCards", nb > 5>>,
     <<"TooManyDeadCards", 2 * n + 5 + nd > 52>>, <<"ConflictingRanges", ~dealable>> >>
Decide(n, nb, nd, dealable) ==
  LET c == Complaints(n, nb, nd, dealable)
      k == { i \in 1..5 : c[i][2] }
  IN IF k = {} THEN "ok" ELSE c[CHOOSE i \in k : \A j \in k : i <= j][1]
===================================================================================
