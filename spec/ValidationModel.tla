----------------------------- MODULE ValidationModel -----------------------------
(***************************************************************************)
(* A table of decisions, built from every number of players, board cards   *)
(* and dead cards, and from why the ranges may conflict.  Printed for      *)
(* replay on both calculations.                                            *)
(***************************************************************************)
EXTENDS Validation, Sequences, TLC, Json
CONSTANTS MaxPlayers, MaxBoard, Whys
VARIABLE in
\* around the boundary for each number of players, and the ends
Room(n) == IF 2 * n + 5 > 52 THEN 0 ELSE 52 - 2 * n - 5
DeadNear(n) == { d \in {0, 1, Room(n), Room(n) + 1, Room(n) + 2, 52} \cup (IF Room(n) > 0 THEN {Room(n) - 1} ELSE {}) : d <= 52 }
Init == in \in { [n |-> n, nb |-> b, nd |-> d, why |-> w] : n \in 0..MaxPlayers, b \in 0..MaxBoard, d \in 0..52, w \in Whys }
            /\ in.nd \in DeadNear(in.n) /\ in.nb + in.nd <= 52
Next == UNCHANGED in
Spec == Init /\ [][Next]_in
Says(x) == Decide(x.n, x.nb, x.nd, x.why = "dealable")
\* Exactly the inputs with nothing wrong yield a result, and adding players beyond nine, board cards beyond five or
\* dead cards never repairs an input.
Sound == LET x == in IN
  /\ (Says(x) = "ok" <=> x.n \in 2..9 /\ x.nb <= 5 /\ 2 * x.n + 5 + x.nd <= 52 /\ x.why = "dealable")
  /\ (Says(x) # "ok" => Says([x EXCEPT !.nd = @ + 1]) # "ok" /\ Says([x EXCEPT !.nb = @ + 1]) # "ok")
Emit == PrintT("VA " \o ToJson([n |-> in.n, nb |-> in.nb, nd |-> in.nd, why |-> in.why, says |-> Says(in)]))
===================================================================================
