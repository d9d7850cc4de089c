------------------------------- MODULE RangeJudge -------------------------------
(* Judges recorded readings: t is the text, h the hands the code listed. *)
EXTENDS RangeNotation, Judge
Case == Trace[at]
Listed == { <<Case.h[i][1], Case.h[i][2], Case.h[i][3]>> : i \in DOMAIN Case.h }
Accepted == /\ Cardinality(Listed) = Len(Case.h)
            /\ WellFormed(Listed)
            /\ Listed = RangeOf(Case.t)
=================================================================================
