---------------------------------- MODULE Sampler ----------------------------------
(***************************************************************************)
(* How a sampled calculation draws hands.  The players are divided into    *)
(* groups.  The choices of hands of a group's players that share no card   *)
(* are listed in some order.  Hands are dealt by drawing a choice of each  *)
(* group until they fit together; from there on a group at a time moves    *)
(* back in its list to the next choice that fits the other groups' hands.  *)
(* The board is completed card by card.                                    *)
(*                                                                         *)
(* A deal of hands is a function from players to positions in their range. *)
(***************************************************************************)
EXTENDS Showdown, SequencesExt

\* The orders a list may have.
Orders(S) == LET base == SetToSeq(S) IN { [i \in DOMAIN base |-> f[base[i]]] : f \in Permutations(S) }

Held(s, d) == UNION { CardsOf(s.rg[p][d[p]]) : p \in DOMAIN d }
\* Choices for the players of a group: no card twice, none of the board's or the dead ones, no hand of weight 0.
ChoicesOf(s, g) ==
  { d \in [g -> UNION { DOMAIN s.rg[p] : p \in g }] :
      /\ \A p \in g : d[p] \in Live(s, p) /\ s.rg[p][d[p]][3] > 0
      /\ Cardinality(Held(s, d)) = 2 * Cardinality(g) }

OnlyOf(d, g) == [p \in g |-> d[p]]
Join(d, e) == [p \in DOMAIN d \cup DOMAIN e |-> IF p \in DOMAIN e THEN e[p] ELSE d[p]]
Fits(s, d, e) == Held(s, d) \cap Held(s, e) = {}

\* All deals, as functions.
Deals(s) == { [p \in Players(s) |-> sel[p]] : sel \in Selections(s) }

Index(order, e) == CHOOSE i \in DOMAIN order : order[i] = e
\* Deal d after group g, of which the choices are listed in this order, has moved.
Moved(s, order, g, d) ==
  LET rest == OnlyOf(d, DOMAIN d \ g)
      n == Len(order)
      back(k) == order[1 + ((Index(order, OnlyOf(d, g)) - 1 + n - k) % n)]
      k == CHOOSE j \in 1..n : Fits(s, rest, back(j)) /\ \A i \in 1..(j - 1) : ~Fits(s, rest, back(i))
  IN Join(d, back(k))

\* A move that looks alike but is wrong: to the first choice of the list that fits and is another one, if any.
MovedToFirst(s, order, g, d) ==
  LET rest == OnlyOf(d, DOMAIN d \ g)
      ok == { i \in DOMAIN order : Fits(s, rest, order[i]) /\ order[i] # OnlyOf(d, g) }
  IN IF ok = {} THEN d ELSE Join(d, order[CHOOSE i \in ok : \A j \in ok : i <= j])

\* The ways to draw a choice of each group in turn. Drawing again all of them when they do not fit:
Drawn(s, groups) ==
  { d \in { [p \in Players(s) |-> e[CHOOSE g \in groups : p \in g][p]] :
              e \in { f \in [groups -> UNION { ChoicesOf(s, g) : g \in groups }] : \A g \in groups : DOMAIN f[g] = g } } :
      Cardinality(Held(s, d)) = 2 * Len(s.rg) }

\* The sequences of cards that complete the board for a deal to a set of cards.
Completions(s, d) == { q \in [1..(5 - Cardinality(s.bd)) -> Deck \ (Used(s) \cup Held(s, d))] : \A i, j \in DOMAIN q : i # j => q[i] # q[j] }
====================================================================================
