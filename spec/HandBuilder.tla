------------------------------ MODULE HandBuilder ------------------------------
(***************************************************************************)
(* Putting a hand together.  A hand is the set of its cards, whatever the  *)
(* way it was put together; everything that can be asked of it is a        *)
(* function of that set (Obs).  The history variable prog is the program   *)
(* of calls; simulated behaviours are replayed on the implementation.      *)
(***************************************************************************)
EXTENDS Cards, TLC, Json
CONSTANTS MaxCards, BuildDeck

VARIABLES cards, prog
vars == <<cards, prog>>

Obs(S) == [count  |-> Cardinality(S),
           suits  |-> [s \in 1..4 |-> Cardinality({ c \in S : SuitOf(c) = s - 1 })],
           inSuit |-> [s \in 1..4 |-> SeqOfSet({ RankOf(c) : c \in { d \in S : SuitOf(d) = s - 1 } })],
           ranks  |-> SeqOfSet({ RankOf(c) : c \in S }),
           cards  |-> SeqOfSet(S),
           flush  |-> \E s \in Suits : Cardinality({ c \in S : SuitOf(c) = s }) >= 5,
           inFlush |-> LET f == { s \in Suits : Cardinality({ c \in S : SuitOf(c) = s }) >= 5 }
                       IN IF f = {} THEN <<>> ELSE SeqOfSet({ RankOf(c) : c \in { d \in S : SuitOf(d) \in f } })]

Free == BuildDeck \ cards

\* The first call makes the hand: empty, or of a card mask.
StartEmpty == prog = <<>> /\ cards' = {} /\ prog' = << [op |-> "empty", cards |-> <<>>] >>
StartMask(S) == prog = <<>> /\ cards' = S /\ prog' = << [op |-> "mask", cards |-> SeqOfSet(S)] >>
AddCard(c) == /\ prog # <<>> /\ Cardinality(cards) < MaxCards
              /\ cards' = cards \cup {c} /\ prog' = Append(prog, [op |-> "card", cards |-> <<c>>])
\* Hole cards are a hand of their own that is added to this one, from the left or from the right.
AddHole(a, b, side) == /\ prog # <<>> /\ Cardinality(cards) + 2 <= MaxCards
                       /\ cards' = cards \cup {a, b}
                       /\ prog' = Append(prog, [op |-> side, cards |-> <<a, b>>])

Init == cards = {} /\ prog = <<>>

Next == \/ StartEmpty
        \/ \E S \in { T \in SUBSET BuildDeck : Cardinality(T) <= MaxCards } : StartMask(S)
        \/ \E c \in Free : AddCard(c)
        \/ \E a, b \in Free : a # b /\ \E side \in {"hole", "holeleft", "holeassign"} : AddHole(a, b, side)
Spec == Init /\ [][Next]_vars

\* The same steps, one random choice of each kind: for simulation with the full deck.
RECURSIVE RandomCards(_, _)
RandomCards(S, n) == IF n = 0 THEN {} ELSE LET c == RandomElement(S) IN {c} \cup RandomCards(S \ {c}, n - 1)
RandomSet == RandomCards(BuildDeck, RandomElement(0..MaxCards))
NextRandom ==
  \/ StartEmpty
  \/ prog = <<>> /\ \E S \in {RandomSet} : StartMask(S)
  \/ Free # {} /\ \E c \in {RandomElement(Free)} : AddCard(c)
  \/ \E a \in (IF Free = {} THEN {} ELSE {RandomElement(Free)}) :
     \E b \in (IF Free = {a} THEN {} ELSE {RandomElement(Free \ {a})}) :
       \E side \in {"hole", "holeleft", "holeassign"} : AddHole(a, b, side)
SimSpec == Init /\ [][NextRandom]_vars

\* Two programs that name the same cards make the same hand: the set is all there is.
Named(p) == UNION { Range(p[i].cards) : i \in DOMAIN p }
IsSetOfNamed == prog # <<>> => cards = Named(prog)
SizeOK == Cardinality(cards) <= MaxCards
SuitsAddUp == LET o == Obs(cards) IN o.suits[1] + o.suits[2] + o.suits[3] + o.suits[4] = o.count
OneFlush == Obs(cards).flush = (Obs(cards).inFlush # <<>>)
Emit == prog = <<>> \/ PrintT("HB " \o ToJson([prog |-> prog, obs |-> Obs(cards)]))
================================================================================
