------------------------------ MODULE CombiningModel ------------------------------
(* Joining in any order gives an exact grouping; conflicts that no pair of players shows are found. *)
EXTENDS Combining, TLC, Randomization
CONSTANTS Players, Deck, Limit, Hands, Tries
VARIABLES ranges, groups
vars == <<ranges, groups>>

AllHands == { <<x, y, 1>> : x, y \in Deck } \cap { <<x, y, 1>> : <<x, y>> \in { z \in Deck \X Deck : z[1] > z[2] } }
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
SomeRanges == RandomSubset(Tries, [1..Players -> RandomSetOfSubsets(12, Hands, AllHands) \ {{}}])
Init == /\ \E r \in SomeRanges : ranges = [p \in 1..Players |-> ToSeq(r[p])]
        /\ groups = [p \in 1..Players |-> Single(ranges, p)]
JoinTwo(i, j) ==
  /\ i # j /\ JoinSize(groups[i], groups[j]) < Limit
  /\ groups' = LET g == [groups EXCEPT ![i] = Join(groups[i], groups[j])]
               IN SubSeq(g, 1, j - 1) \o SubSeq(g, j + 1, Len(g))
  /\ UNCHANGED ranges
Next == \E i, j \in DOMAIN groups : JoinTwo(i, j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

PartitionOK == Partition(ranges, groups)
ExactOK == Exact(ranges, groups)
Done == ~ENABLED Next
FinalOK == Done => Final(groups, Limit)
\* When everything was joined, there is a combination exactly if the players can be dealt their hands.
FoundOut == Done /\ (\E i \in DOMAIN groups : groups[i].combos = {}) => Choices(ranges, [p \in 1..Players |-> p]) = {}
Terminates == <>[][FALSE]_vars
===================================================================================
