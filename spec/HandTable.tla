------------------------------ MODULE HandTable -----------------------------
(***************************************************************************)
(* Enumerates every abstract hand: each multiset of at most MaxCards ranks *)
(* (no flush), and each set of five to seven ranks held in one suit.       *)
(* Dealing is the state machine; cards are added in non-decreasing rank    *)
(* order so that each multiset is reached exactly once.  With Dump = TRUE  *)
(* every state's value is printed: that table is what the conformance      *)
(* harness replays against the implementation.                             *)
(***************************************************************************)
EXTENDS HandRanking, TLC
CONSTANTS MaxCards, Dump, CheckBest

VARIABLES rc, last, fm
vars == <<rc, last, fm>>

Empty == [r \in Ranks |-> 0]
Init == rc = Empty /\ last = 0 /\ fm = {}

AddCard(r) ==
  /\ fm = {} /\ Size(rc) < MaxCards /\ r >= last /\ rc[r] < 4
  /\ rc' = [rc EXCEPT ![r] = @ + 1] /\ last' = r /\ UNCHANGED fm

\* From the empty hand, deal a flush outright (its rank set is what matters).
DealFlush(f) ==
  /\ rc = Empty /\ fm = {} /\ last = 0
  /\ fm' = f /\ rc' = [r \in Ranks |-> IF r \in f THEN 1 ELSE 0] /\ last' = 0

FlushSets == { f \in SUBSET Ranks : Cardinality(f) \in 5..MaxCards }

Next == (\E r \in Ranks : AddCard(r)) \/ (\E f \in FlushSets : DealFlush(f))
Spec == Init /\ [][Next]_vars

Digits == [i \in 1..13 |-> rc[i - 1]]
Row == <<IF fm = {} THEN 0 ELSE 1, Digits, Value(rc, fm)>>

Emit == ~Dump \/ PrintT(<<"HV", Row>>)

\* Value is total and its category is one of nine.
CategoryOK == Size(rc) >= 1 => CategoryOf(Value(rc, fm)) \in 1..9
\* The closed form agrees with the definition.
BestOK == (CheckBest /\ Size(rc) >= 5) => Value(rc, fm) = BestOfFive(rc, fm)
\* A flush needs five cards; fewer never make a straight or better of five.
PartialOK == Size(rc) \in 2..4 => CategoryOf(Value(rc, fm)) \in {1, 2, 3, 4, 8}
=============================================================================
