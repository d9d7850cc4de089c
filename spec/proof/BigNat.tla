---------------------------------- MODULE BigNat ----------------------------------
(***************************************************************************)
(* Stands in for BigNat in proofs: they hold whatever its arithmetic does  *)
(* (tlapm does not know recursive definitions).                            *)
(***************************************************************************)
CONSTANTS BNat(_), BAdd(_, _), BSub(_, _), BMul(_, _), BLt(_, _), BLe(_, _)
===================================================================================
