-------------------------------- MODULE Combining --------------------------------
(***************************************************************************)
(* Combining the players' ranges into groups, to spare sampling and        *)
(* enumeration the combinations in which hands share a card.               *)
(*                                                                         *)
(* A group has its players, in some order, and its combinations: for each, *)
(* one hand <<card, card, weight>> per player in that order.  Starting     *)
(* from one group per player, two groups that give fewer than Limit        *)
(* combinations are joined (the code joins the pair with the fewest        *)
(* first; which one is not specified), until none is left.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CardsOfHand(h) == {h[1], h[2]}
CardsOfCombo(c) == UNION { CardsOfHand(c[i]) : i \in DOMAIN c }
Elems(s) == { s[i] : i \in DOMAIN s }

Single(ranges, p) == [players |-> <<p>>, combos |-> { <<h>> : h \in Elems(ranges[p]) }]
JoinPairs(g, k) == { x \in g.combos \X k.combos : CardsOfCombo(x[1]) \cap CardsOfCombo(x[2]) = {} }
JoinSize(g, k) == Cardinality(JoinPairs(g, k))
Join(g, k) == [players |-> g.players \o k.players, combos |-> { x[1] \o x[2] : x \in JoinPairs(g, k) }]

---------------------------------------------------------------------------
(* What a grouping must be, however it came about. *)

\* Every choice of one hand per player of the group without a shared card.
RECURSIVE ChoicesFrom(_, _, _, _)
ChoicesFrom(ranges, players, i, used) ==
  IF i > Len(players) THEN { <<>> }
  ELSE UNION { { <<h>> \o rest : rest \in ChoicesFrom(ranges, players, i + 1, used \cup CardsOfHand(h)) }
                 : h \in { x \in Elems(ranges[players[i]]) : CardsOfHand(x) \cap used = {} } }
Choices(ranges, players) == ChoicesFrom(ranges, players, 1, {})

Partition(ranges, groups) ==
  /\ \A p \in DOMAIN ranges : Cardinality({ <<i, j>> \in UNION { {i} \X DOMAIN groups[i].players : i \in DOMAIN groups } :
                                               groups[i].players[j] = p }) = 1
  /\ \A i \in DOMAIN groups : Elems(groups[i].players) \subseteq DOMAIN ranges
Exact(ranges, groups) == \A i \in DOMAIN groups : groups[i].combos = Choices(ranges, groups[i].players)
Final(groups, limit) == \A i, j \in DOMAIN groups : i # j => JoinSize(groups[i], groups[j]) >= limit
==================================================================================
