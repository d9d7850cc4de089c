----------------------------- MODULE FastDivCritical -----------------------------
(***************************************************************************)
(* Why few dividends decide a divisor: whatever the multiplier m and the   *)
(* shift k are, if (m * n) >> k is the quotient of n by d for n = d and    *)
(* for the largest word one short of a multiple of d, it is the quotient   *)
(* for every word.  The harness divides these two for millions of          *)
(* divisors of the real word size.                                         *)
(***************************************************************************)
EXTENDS Naturals, TLC
CONSTANT W
VARIABLES d, m, k
vars == <<d, m, k>>
Init == d \in 1..(2^W - 1) /\ m = 0 /\ k \in 0..(2 * W)
Next == m < 2^(W + 1) /\ m' = m + 1 /\ UNCHANGED <<d, k>>
Spec == Init /\ [][Next]_vars
Q(n) == (m * n) \div 2^k
Right(n) == Q(n) = n \div d
LastShort == (2^W \div d) * d - 1
Lemma == Right(d) /\ Right(LastShort) => \A n \in 0..(2^W - 1) : Right(n)
==================================================================================
