-------------------------------- MODULE DrawJudge --------------------------------
(* Judges recorded draws from the cards: hole cards h, board b, category k, draw byte d. *)
EXTENDS Draws, Judge, Showdown
Case == Trace[at]
Accepted == LET c == Case
                h == Range(c.h)
                b == Range(c.b)
            IN /\ c.k = CategoryOf(HandValue(h \cup b)) - 1
               /\ c.d = DrawByte(h, b, c.k)
==================================================================================
