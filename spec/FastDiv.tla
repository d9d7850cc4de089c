---------------------------------- MODULE FastDiv ----------------------------------
(***************************************************************************)
(* Division of W-bit words by a prepared divisor: a divider is made once   *)
(* and then divides any number of dividends.                               *)
(*   shift    n >> s                                                       *)
(*   fast     (magic * n) >> (W + s), magic a W-bit word                   *)
(*   general  ((magic + 2^W) * n) >> (W + 1 + s), done without overflow    *)
(* Dividing is right if it gives the quotient for every dividend, which is *)
(* the property; how a divider comes to be is this code's choice.          *)
(***************************************************************************)
EXTENDS Naturals, TLC
CONSTANT W
Words == 0..(2^W - 1)

FloorLog2(n) == CHOOSE k \in 0..W : 2^k <= n /\ n < 2^(k + 1)
IsPowerOf2(n) == \E k \in 0..W : n = 2^k
MulHi(x, y) == (x * y) \div 2^W

Make(d) ==
  LET f  == FloorLog2(d)
      u  == 2^(W + f)
      m0 == u \div d
      e  == d - (u - m0 * d)
      p  == f + 1
  IN IF IsPowerOf2(d) THEN [kind |-> "shift", magic |-> 0, shift |-> f]
     ELSE IF e < 2^f THEN [kind |-> "fast", magic |-> (m0 + 1) % 2^W, shift |-> f]
     ELSE [kind |-> "general", magic |-> (1 + 2^(W + p) \div d) % 2^W, shift |-> p - 1]

Divide(x, n) ==
  CASE x.kind = "shift"   -> n \div 2^x.shift
    [] x.kind = "fast"    -> MulHi(x.magic, n) \div 2^x.shift
    [] x.kind = "general" -> LET q == MulHi(x.magic, n)
                                 t == ((n - q) \div 2 + q) % 2^W
                             IN t \div 2^x.shift

VARIABLES d, x, n, q
vars == <<d, x, n, q>>
Init == d \in 1..(2^W - 1) /\ x = Make(d) /\ n = 0 /\ q = 0
Next == n < 2^W - 1 /\ n' = n + 1 /\ q' = Divide(x, n + 1) /\ UNCHANGED <<d, x>>
Spec == Init /\ [][Next]_vars
QuotientOK == q = n \div d
MagicOK == x.magic \in Words /\ x.shift \in 0..(W - 1)
====================================================================================
