------------------------------ MODULE CombiningJudge ------------------------------
(* Judges recorded groupings: rg the ranges; groups: players (from 1), combinations, the cards of each. *)
EXTENDS Combining, Judge
Accepted ==
  LET c == Trace[at]
      gs == TLCEval([i \in DOMAIN c.groups |-> [players |-> c.groups[i].players, combos |-> Elems(c.groups[i].combos)]])
  IN /\ Partition(c.rg, gs)
     /\ Exact(c.rg, gs)
     /\ Final(gs, 10000)
     /\ \A i \in DOMAIN c.groups :
          /\ Cardinality(gs[i].combos) = Len(c.groups[i].combos)
          /\ \A j \in DOMAIN c.groups[i].combos : CardsOfCombo(c.groups[i].combos[j]) = Elems(c.groups[i].masks[j])
===================================================================================
