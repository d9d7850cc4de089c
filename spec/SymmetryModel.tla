------------------------------- MODULE SymmetryModel -------------------------------
(***************************************************************************)
(* Scenarios of a small deck, renamed and reordered step by step; what     *)
(* they come to is renamed and reordered alike.                            *)
(***************************************************************************)
EXTENDS Symmetry
CONSTANTS Scenarios, MaxSteps
VARIABLES scn, want, steps
vars == <<scn, want, steps>>
\* A deck of the ranks 0..4 in three suits, dealt in different ways.
Live3 == { 4 * r + s : r \in 0..4, s \in {0, 1, 2} }
Rest(bd) == Deck \ Live3
Sc(k) == CASE k = 1 -> [rg |-> << << <<4, 0, 1>>, <<9, 6, 2>> >>, << <<16, 13, 1>>, <<12, 4, 3>> >>, << <<17, 8, 1>> >> >>, bd |-> {1, 5, 18}, dd |-> Rest(0)]
          [] k = 2 -> [rg |-> << << <<4, 0, 5>>, <<12, 8, 2>> >>, << <<5, 1, 1>>, <<6, 2, 1>> >> >>, bd |-> {16, 9, 14, 10}, dd |-> Rest(0)]
          [] k = 3 -> [rg |-> << << <<16, 12, 1>> >>, << <<17, 13, 1>> >>, << <<18, 14, 1>>, <<17, 12, 1>> >> >>, bd |-> {0, 1, 2, 4, 5}, dd |-> Rest(0)]
Init == \E k \in Scenarios : scn = Sc(k) /\ want = TLCEval(Outcome(Sc(k))) /\ steps = 0
Rename == \E f \in Renamings : scn' = Renamed(scn, f) /\ want' = TLCEval(RenamedOutcome(want, f))
Reorder == \E q \in Orders(Len(scn.rg)) : scn' = Reordered(scn, q) /\ want' = TLCEval(ReorderedOutcome(want, q))
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Rename \/ Reorder)
Spec == Init /\ [][Next]_vars
Alike == Outcome(scn) = want
====================================================================================
