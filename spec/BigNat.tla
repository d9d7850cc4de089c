--------------------------------- MODULE BigNat ---------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32 bits: sequences of digits in base       *)
(* 10000, least significant first, without leading zeros (zero is <<>>).   *)
(***************************************************************************)
EXTENDS Naturals, Sequences
BASE == 10000

RECURSIVE BTrim(_)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BNat(n \div BASE)
BDigit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BMax(x, y) == IF x >= y THEN x ELSE y

RECURSIVE BAddFrom(_, _, _, _)
BAddFrom(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET d == BDigit(a, i) + BDigit(b, i) + carry
       IN <<d % BASE>> \o BAddFrom(a, b, i + 1, d \div BASE)
BAdd(a, b) == BAddFrom(a, b, 1, 0)

RECURSIVE BLeFrom(_, _, _)
BLeFrom(a, b, i) == IF i = 0 THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLeFrom(a, b, i - 1)
BLe(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLeFrom(a, b, Len(a))
BLt(a, b) == a # b /\ BLe(a, b)

RECURSIVE BSubFrom(_, _, _, _)
BSubFrom(a, b, i, borrow) ==
  IF i > Len(a) THEN <<>>
  ELSE LET d == a[i] + BASE - BDigit(b, i) - borrow
       IN <<d % BASE>> \o BSubFrom(a, b, i + 1, IF d < BASE THEN 1 ELSE 0)
\* a - b, for b <= a
BSub(a, b) == BTrim(BSubFrom(a, b, 1, 0))
BDist(a, b) == IF BLe(a, b) THEN BSub(b, a) ELSE BSub(a, b)

RECURSIVE BMul1(_, _, _, _)
\* a * d + carry for a single digit d
BMul1(a, d, i, carry) ==
  IF i > Len(a) THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET x == a[i] * d + carry IN <<x % BASE>> \o BMul1(a, d, i + 1, x \div BASE)
RECURSIVE BMulFrom(_, _, _)
BMulFrom(a, b, j) ==
  IF j > Len(b) THEN <<>>
  ELSE BAdd(BTrim(BMul1(a, b[j], 1, 0)), LET r == BMulFrom(a, b, j + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
BMul(a, b) == IF a = <<>> THEN <<>> ELSE BTrim(BMulFrom(a, b, 1))

\* Two to the n.
RECURSIVE BPow2(_)
BPow2(n) == IF n = 0 THEN <<1>> ELSE IF n < 20 THEN BNat(2^n) ELSE BMul(BPow2(n - 20), BNat(2^20))

\* The quotient of a by b # 0 is q.
IsQuotient(q, a, b) == LET m == BMul(q, b) IN BLe(m, a) /\ BLt(BSub(a, m), b)
=================================================================================
