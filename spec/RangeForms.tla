------------------------------- MODULE RangeForms -------------------------------
(***************************************************************************)
(* Every form a range item can take without a weight, what it denotes by   *)
(* its meaning, and how it is written.  TLC checks that reading the text   *)
(* gives the meaning, and prints both for replay on the implementation.    *)
(***************************************************************************)
EXTENDS RangeNotation, TLC, Json

Marks == {"", "s", "o"}
VARIABLES a, b, m, form, c, d, n
vars == <<a, b, m, form, c, d, n>>
\* Two ranks and a mark first; then what follows them.
Init == a \in 0..12 /\ b \in 0..12 /\ m \in Marks /\ form = "hand" /\ c = 0 /\ d = 0 /\ n = ""
MakePlus == form = "hand" /\ form' = "plus" /\ UNCHANGED <<a, b, m, c, d, n>>
MakeDash == form = "hand" /\ form' = "dash" /\ c' \in 0..12 /\ d' \in 0..12 /\ n' \in Marks /\ UNCHANGED <<a, b, m>>
\* Two cards: the marks are not used, c and d are the suits.
MakeCards == form = "hand" /\ m = "" /\ form' = "cards" /\ c' \in Suits /\ d' \in Suits /\ UNCHANGED <<a, b, m, n>>
Next == MakePlus \/ MakeDash \/ MakeCards
Spec == Init /\ [][Next]_vars

MarkText(x) == CASE x = "" -> <<>> [] x = "s" -> <<LetterS>> [] x = "o" -> <<LetterO>>
Rk(r) == <<RankCp[r + 1]>>
Text == CASE form = "hand" -> Rk(a) \o Rk(b) \o MarkText(m)
          [] form = "plus" -> Rk(a) \o Rk(b) \o MarkText(m) \o <<Plus>>
          [] form = "dash" -> Rk(a) \o Rk(b) \o MarkText(m) \o <<Dash>> \o Rk(c) \o Rk(d) \o MarkText(n)
          [] form = "cards" -> Rk(a) \o <<SuitCp[c + 1]>> \o Rk(b) \o <<SuitCp[d + 1]>>
Su == m # "o"
Of == m # "s"
WellMeant == CASE form = "dash" -> DashOK(a, b, c, d) /\ (n = "" \/ n = m)
               [] form = "cards" -> ~(a = b /\ c = d)
               [] OTHER -> TRUE
Meaning == CASE form = "hand" -> Cells(a, b, Su, Of)
             [] form = "plus" -> PlusCells(a, b, Su, Of)
             [] form = "dash" -> DashCells(a, b, c, d, Su, Of)
             [] form = "cards" -> {}

ReadsBack ==
  LET it == ReadItem(Text, 1) IN
  IF WellMeant THEN /\ it.ok /\ it.next = Len(Text) + 1 /\ it.w = 100
                    /\ (form # "cards" => it.cells = Meaning /\ it.hand = <<>>)
                    /\ (form = "cards" => ItemHands(it) = { HigherFirst(4 * a + c, 4 * b + d) })
  ELSE ~it.ok
\* What the property says of each form.
HandsOK == WellMeant =>
  LET hands == ItemHands(ReadItem(Text, 1)) IN
  CASE form = "hand" -> Cardinality(hands) = (IF a = b THEN (IF m = "s" THEN 0 ELSE 6)
                                              ELSE CASE m = "" -> 16 [] m = "s" -> 4 [] m = "o" -> 12)
    [] form = "cards" -> Cardinality(hands) = 1
    [] form = "plus" -> \A h \in hands : (IF a = b THEN RankOf(h[1]) = RankOf(h[2]) /\ RankOf(h[1]) >= a
                                          ELSE RankOf(h[1]) = a /\ RankOf(h[2]) >= b /\ RankOf(h[2]) < a)
    [] OTHER -> TRUE
\* A dash is the same in either order.
DashSymmetric == form = "dash" /\ DashOK(a, b, c, d) =>
                   DashCells(a, b, c, d, Su, Of) = DashCells(c, d, a, b, Su, Of)
Code(cell) == (CASE cell[1] = "p" -> 0 [] cell[1] = "s" -> 1 [] cell[1] = "o" -> 2) * 169 + cell[2] * 13 + cell[3]
Emit == PrintT("RF " \o ToJson([t |-> Text, f |-> form, ok |-> WellMeant,
                                c |-> IF WellMeant THEN { Code(x) : x \in Meaning } ELSE {},
                                h |-> IF WellMeant /\ form = "cards" THEN ReadItem(Text, 1).hand ELSE <<>>]))
================================================================================
