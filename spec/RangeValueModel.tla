------------------------------ MODULE RangeValueModel ------------------------------
(***************************************************************************)
(* A list of hands in use: hands are noted down one by one; then the list  *)
(* is filtered by board and dead cards, sorted, and rid of repeats, in any *)
(* order and as often as one likes.                                        *)
(***************************************************************************)
EXTENDS RangeValue, Json
CONSTANTS Playing,      \* the cards of this deck
          MaxHands, MaxBlocked, MaxSteps,
          Emit          \* print the histories
VARIABLES start,        \* the list as it was noted down
          R,            \* the list now
          gone,         \* the cards taken out of play so far
          sorted,       \* it has been sorted since it was noted down
          once,         \* repeats were removed since
          hist
vars == <<start, R, gone, sorted, once, hist>>

Hands == { <<x, y>> \in Playing \X Playing : x # y }
Some(S) == IF Emit THEN { RandomElement(S) } ELSE S
RECURSIVE Pick(_, _)
Pick(S, n) == IF n = 0 THEN {} ELSE LET x == RandomElement(S) IN {x} \cup Pick(S, n - 1)
\* (The argument keeps TLC from choosing once and for all.)
CardSets(k) == IF Emit THEN { Pick(Playing, RandomElement(0..MaxBlocked)) }
            ELSE { S \in SUBSET Playing : Cardinality(S) <= MaxBlocked }

Init == start = <<>> /\ R = <<>> /\ gone = {} /\ sorted = FALSE /\ once = FALSE /\ hist = <<>>
Noting == hist = <<>>
\* Simulated lists repeat hands: every third mention is of a hand that is there.
Mention == /\ Noting /\ Len(start) < MaxHands
           /\ \E h \in IF Emit /\ start # <<>> /\ RandomElement(1..3) = 1
                       THEN { <<start[i][1], start[i][2]>> : i \in { RandomElement(1..Len(start)) } } ELSE Some(Hands) :
                 /\ start' = Append(start, <<h[1], h[2], Len(start) + 1>>)
                 /\ R' = start'
           /\ UNCHANGED <<gone, sorted, once, hist>>
Did(op, b, d, next) == /\ R' = next
                       /\ hist' = Append(hist, IF Emit THEN [op |-> op, b |-> SeqOfSet(b), d |-> SeqOfSet(d), r |-> next] ELSE op)
May == Len(hist) < MaxSteps /\ start # <<>> /\ (Emit /\ Noting => Len(start) > MaxHands \div 3)
Filter == /\ May /\ \E b \in CardSets(Len(hist)), d \in CardSets(Len(hist) + 1) :
                      /\ Did("filter", b, d, Without(R, b \cup d))
                      /\ gone' = gone \cup b \cup d
          /\ UNCHANGED <<start, sorted, once>>
Sort == /\ May /\ Did("sort", {}, {}, Ascending(R))
        /\ sorted' = TRUE /\ UNCHANGED <<start, gone, once>>
Once == /\ May /\ Did("once", {}, {}, OncePerRun(R))
        /\ once' = (once \/ sorted) /\ UNCHANGED <<start, gone, sorted>>
Next == Mention \/ Filter \/ Sort \/ Once
Spec == Init /\ [][Next]_vars
View == <<start, R, gone, sorted, once, Len(hist)>>

\* ---- what a range is after all that ---------------------------------------
HandsIn(L) == { <<L[i][1], L[i][2]>> : i \in DOMAIN L }
\* Exactly the hands that are still free, whatever was done in whatever order.
HandsOK == HandsIn(R) = { h \in HandsIn(start) : Free(h, gone) }
WeightsOK == \A i \in DOMAIN R : R[i][3] \in DOMAIN start /\ start[R[i][3]] = R[i]
OrderOK == \A i \in DOMAIN R, j \in DOMAIN R :
             i < j => IF sorted THEN Place(R[i]) <= Place(R[j]) /\ (SameHand(R[i], R[j]) => R[i][3] < R[j][3])
                      ELSE R[i][3] < R[j][3]
\* The first mention of a hand decides its weight.
FirstOK == once => \A i \in DOMAIN R : \A k \in DOMAIN start : SameHand(start[k], R[i]) => R[i][3] <= k
OnceOK == once => Cardinality(HandsIn(R)) = Len(R)
\* Sorting, filtering and removing repeats get in nobody's way.
Orders == LET S == Ascending(R) IN
          /\ Ascending(S) = S
          /\ OncePerRun(OncePerRun(S)) = OncePerRun(S)
          /\ \A c \in Playing : /\ Without(S, {c}) = Ascending(Without(R, {c}))
                                /\ OncePerRun(Without(S, {c})) = Without(OncePerRun(S), {c})
                                /\ \A d \in Playing : Without(Without(R, {c}), {d}) = Without(R, {c, d})
          /\ Without(R, gone) = R
Emitted == Emit /\ Len(hist) = MaxSteps => PrintT("RV " \o ToJson([start |-> start, hist |-> hist]))

\* A total order, and equality is being neither less nor greater.
AllHands2 == { <<x, y>> : x \in 0..11, y \in 0..11 }
ASSUME \A g \in AllHands2, h \in AllHands2 :
         /\ LessThan(g, h) <=> Place(g) < Place(h)
         /\ SameHand(g, h) <=> ~LessThan(g, h) /\ ~LessThan(h, g)
\* The places of all hands of the real deck, and their texts.
ASSUME Emit => \A x \in Deck : PrintT("RP " \o ToJson([x |-> x, p |-> [y \in 1..52 |-> Place(<<x, y - 1>>)], t |-> [y \in 1..52 |-> TextOf(<<x, y - 1>>)]]))
====================================================================================
