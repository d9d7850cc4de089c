----------------------------- MODULE StartingHands -----------------------------
(***************************************************************************)
(* The machine deals the starting hands in the published order; TLC checks *)
(* that the order is a bijection and prints it.                            *)
(***************************************************************************)
EXTENDS StartingHandsOrder, TLC
--------------------------------------------------------------------------------
VARIABLES k, j          \* the next hand: the j-th of the k-th class; both from 1
vars == <<k, j>>
Init == k = 1 /\ j = 1
NextHand  == k <= 169 /\ j < Len(HandsOfClass(ClassList[k])) /\ j' = j + 1 /\ k' = k
NextClass == k < 169 /\ j = Len(HandsOfClass(ClassList[k])) /\ j' = 1 /\ k' = k + 1
Next == NextHand \/ NextClass
Spec == Init /\ [][Next]_vars

Index == BlockStart(k) + j - 1
Hand  == HandsOfClass(ClassList[k])[j]

\* The walk is the closed form, so no hand has two indices; it is 1326 steps
\* long, so every index has a hand; and the blocks have the sizes stated.
IndexOK == /\ IndexOfHand(Hand[1], Hand[2]) = Index
           /\ IndexOfHand(Hand[2], Hand[1]) = Index
AtOK == HandAt(Index) = Hand /\ ClassOfIndex(Index) = k - 1
BlockOK == Len(HandsOfClass(ClassList[k])) = BlockSize(k)
KindOK  == (ClassList[k][1] = Pair) = (Index < 78) /\ (ClassList[k][1] = Suited) = (Index \in 78..389)
Emit == PrintT(<<"SH", Index, HandName(Hand), Hand[1], Hand[2], k - 1, ClassName(ClassList[k])>>)
================================================================================
