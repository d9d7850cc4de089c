------------------------------ MODULE ResultsJudge ------------------------------
(* Judges recorded results: What is "C10", "C11" or "C12". bd is the board. *)
EXTENDS Results, Judge, Draws, Showdown
CONSTANT What
Case == Trace[at]
Accepted ==
  LET c == Case
      b == Range(c.bd)
      r == [c EXCEPT !.bad = @]
      hole(i) == CardsOf(HandAt(i))
  IN CASE What = "C10" -> Consistent(r)
       [] What = "C11" -> ClassesOK(r)
       [] What = "C12" -> BoardOK(r, LAMBDA i : CategoryOf(HandValue(b \cup hole(i))) - 1,
                                     LAMBDA i, k : DrawByte(hole(i), b, k))
==================================================================================
