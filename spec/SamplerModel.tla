------------------------------- MODULE SamplerModel -------------------------------
(***************************************************************************)
(* The deals of a small scenario, one walker starting at each of them, and *)
(* all walkers making the same moves.  Whatever the groups, the orders of  *)
(* their lists and the moves, there is always one walker at each deal: a   *)
(* walk that starts at a deal drawn without bias stays without bias.       *)
(***************************************************************************)
EXTENDS Sampler
CONSTANTS Scenarios, Rule, MaxMoves
VARIABLES scn, groups, order, walkers, moves
vars == <<scn, groups, order, walkers, moves>>

Dealt(S) == Deck \ S
Scn(k) ==
  CASE k = 1 -> \* two players who contest the same few cards
         [rg |-> << << <<4, 0, 1>>, <<8, 0, 1>>, <<8, 4, 1>> >>, << <<4, 0, 1>>, <<12, 0, 1>>, <<12, 8, 1>>, <<16, 12, 1>> >> >>,
          bd |-> {1, 5, 9, 13}, dd |-> Dealt({0, 4, 8, 12, 16, 1, 5, 9, 13, 17, 21})]
    [] k = 2 -> \* three players
         [rg |-> << << <<4, 0, 1>>, <<8, 4, 1>>, <<12, 8, 1>> >>, << <<4, 0, 1>>, <<8, 0, 1>> >>, << <<16, 12, 1>>, <<20, 16, 1>>, <<20, 0, 1>> >> >>,
          bd |-> {1, 5, 9, 13}, dd |-> Dealt({0, 4, 8, 12, 16, 20, 1, 5, 9, 13, 17, 21})]
    [] k = 3 -> \* a hand that never fits, one that is dead, one of weight 0, others of different weights
         [rg |-> << << <<4, 0, 3>>, <<8, 4, 1>>, <<12, 8, 2>>, <<24, 12, 1>> >>, << <<4, 0, 5>>, <<8, 0, 1>>, <<16, 8, 0>>, <<16, 4, 1>> >> >>,
          bd |-> {1, 5, 9}, dd |-> Dealt({0, 4, 8, 12, 16, 1, 5, 9, 13, 17, 21})]

\* Ways to divide the players.
Divisions(s) == { P \in SUBSET (SUBSET Players(s) \ {{}}) : UNION P = Players(s) /\ \A g, h \in P : g # h => g \cap h = {} }

Init ==
  /\ \E k \in Scenarios : scn = Scn(k)
  /\ groups \in Divisions(scn)
  /\ order = [g \in groups |-> <<>>]
  /\ walkers = TLCEval([d \in Deals(scn) |-> d])
  /\ moves = 0
Unsorted == { g \in groups : order[g] = <<>> }
\* A list gets its order. Where it starts does not matter to moves that go round it.
Shuffle == Unsorted # {} /\ LET g == CHOOSE x \in Unsorted : TRUE
                               c == ChoicesOf(scn, g)
                           IN \E o \in { x \in Orders(c) : Rule = "previous" => x[1] = SetToSeq(c)[1] } : order' = [order EXCEPT ![g] = o]
           /\ UNCHANGED <<scn, groups, walkers, moves>>
Move(g) == walkers' = TLCEval([d \in DOMAIN walkers |->
  IF Rule = "previous" THEN Moved(scn, order[g], g, walkers[d]) ELSE MovedToFirst(scn, order[g], g, walkers[d])])
Walk == Unsorted = {} /\ moves < MaxMoves /\ moves' = moves + 1 /\ UNCHANGED <<scn, groups, order>> /\ \E g \in groups : Move(g)
Next == Shuffle \/ Walk
Spec == Init /\ [][Next]_vars

\* One walker at each deal.
Unbiased == { walkers[d] : d \in DOMAIN walkers } = Deals(scn)
\* Every deal can be drawn, in one way, and nothing else.
Start == order = [g \in groups |-> <<>>] => Drawn(scn, groups) = Deals(scn)
\* Every completion of the board is reached by equally many sequences of cards.
BoardsAlike == order = [g \in groups |-> <<>>] => \A d \in Deals(scn) :
  LET c == TLCEval(Completions(scn, d)) IN
    /\ { scn.bd \cup Range(q) : q \in c } = Boards(scn, [p \in 1..Len(scn.rg) |-> d[p]])
    /\ \E n \in 1..120 : \A b \in { Range(q) : q \in c } : Cardinality({ q \in c : Range(q) = b }) = n
===================================================================================
