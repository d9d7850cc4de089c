------------------------------- MODULE BigNatModel -------------------------------
(* Checks the arithmetic of BigNat against TLC's own on numbers that fit. *)
EXTENDS BigNat, TLC, Integers
VARIABLES a, b
Interesting == {0, 1, 2, 9, 9999, 10000, 10001, 12345, 19999, 20000, 29999, 46340, 45678, 40000}
Init == a \in Interesting /\ b \in Interesting
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
A == BNat(a)
Bb == BNat(b)
AddOK == BAdd(A, Bb) = BNat(a + b)
MulOK == (a <= 46340 /\ b <= 46340) => BMul(A, Bb) = BNat(a * b)
CmpOK == BLe(A, Bb) = (a <= b) /\ BLt(A, Bb) = (a < b)
SubOK == BDist(A, Bb) = BNat(IF a >= b THEN a - b ELSE b - a)
QuotOK == b > 0 => (IsQuotient(BNat(a \div b), A, Bb) /\ ~IsQuotient(BNat(a \div b + 1), A, Bb))
\* (a+b)^2 * big = (a^2 + 2ab + b^2) * big
Big == BPow2(64)
RingOK == BMul(BMul(BAdd(A, Bb), BAdd(A, Bb)), Big)
          = BAdd(BMul(BMul(A, A), Big), BAdd(BMul(BMul(A, BMul(Bb, Big)), BNat(2)), BMul(Bb, BMul(Big, Bb))))
PowOK == Big = <<1616, 955, 737, 6744, 1844>> 
==================================================================================
