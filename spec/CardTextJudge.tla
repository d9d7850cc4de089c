------------------------------ MODULE CardTextJudge ------------------------------
(* Judges recorded calls of the readers and writers. *)
EXTENDS CardText, Judge
Case == Trace[at]
Accepted ==
  CASE Case.f = "mask"  -> Range(Case.r) = ReadMask(Case.t)
    [] Case.f = "card"  -> Case.r = ReadCard(Case.t)
    [] Case.f = "first" -> Case.r = ReadFirst(Case.t)
    [] Case.f = "flop"  -> Case.r = ReadFlop(Case.t)
    [] Case.f = "text"  -> Case.r = TextOfSet(Range(Case.s))
    [] Case.f = "one"   -> Case.r = CardCps(Case.s[1])
    [] Case.f = "hole"  -> Case.r = TextOfHole(Case.s[1], Case.s[2])
    [] Case.f = "combo" -> Case.r = CardCps(Case.s[1]) \o CardCps(Case.s[2])
==================================================================================
