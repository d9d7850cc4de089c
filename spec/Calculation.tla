------------------------------- MODULE Calculation -------------------------------
(***************************************************************************)
(* A calculation as its caller sees it: parts of the work are counted, no  *)
(* part twice, until all are or the caller's token is set.                 *)
(***************************************************************************)
VARIABLES all, counted, token, returned
vars == <<all, counted, token, returned>>
Init == counted = {} /\ ~token /\ ~returned
Count == ~returned /\ \E S \in SUBSET (all \ counted) : counted' = counted \cup S /\ UNCHANGED <<all, token, returned>>
SetToken == ~token /\ token' = TRUE /\ UNCHANGED <<all, counted, returned>>
Return == ~returned /\ (counted = all \/ token) /\ returned' = TRUE /\ UNCHANGED <<all, counted, token>>
Next == Count \/ SetToken \/ Return
Spec == Init /\ [][Next]_vars
===================================================================================
