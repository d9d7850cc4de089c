----------------------------------- MODULE Session -----------------------------------
(***************************************************************************)
(* A program that uses the library: it reads, copies and filters ranges,   *)
(* starts calculations in slots, several at a time, some sharing a token,  *)
(* sets tokens, and takes the results.  What a calculation gives is said   *)
(* here by its own inputs and token alone; whatever else goes on has no    *)
(* part in it.  A calculation that is like an earlier one but for one      *)
(* thing is the most likely next step: remembering too much or too little  *)
(* of the earlier one would show.                                          *)
(***************************************************************************)
EXTENDS RangeNotation, Validation, Json, TLC
CONSTANTS Vars, Tokens, Slots,
          Menu,          \* the texts read, as strings
          Playing,       \* the cards boards and dead cards are taken from
          BoardSizes, DeadSizes, MaxPlayers,
          Threads, Kinds,
          Weights,       \* given to a hand anew
          MaxCost,       \* selections times boards of a calculation
          MaxSteps,
          Emit           \* choose at random, and print what was done
VARIABLES rng,           \* the ranges: sets of <<higher card, lower card, weight>>
          token,         \* which tokens are set
          slot,          \* what each slot is at: none, or the inputs and whether its token was ever set
          latest,        \* the inputs of the last start
          outs,          \* what the finished calculations gave
          hist
vars == <<rng, token, slot, latest, outs, hist>>

\* ---- texts ----------------------------------------------------------------
Chars == "23456789TJQKAshcdo+-@,01"
Codes == <<50, 51, 52, 53, 54, 55, 56, 57, 84, 74, 81, 75, 65, 115, 104, 99, 100, 111, 43, 45, 64, 44, 48, 49>>
CodeOf(c) == Codes[CHOOSE i \in 1..Len(Chars) : SubSeq(Chars, i, i) = c]
CodesOf(s) == IF s = "random" THEN RandomText ELSE [i \in 1..Len(s) |-> CodeOf(SubSeq(s, i, i))]
Meaning == TLCEval([s \in Menu |-> RangeOf(CodesOf(s))])

\* ---- what a calculation gives, by its inputs ---------------------------------
RECURSIVE CanBeDealt(_, _, _)
CanBeDealt(rs, p, used) ==
  \/ p > Len(rs)
  \/ \E h \in rs[p] : h[3] > 0 /\ h[1] \notin used /\ h[2] \notin used /\ CanBeDealt(rs, p + 1, used \cup {h[1], h[2]})
Verdict(in) == Decide(Len(in.rs), Cardinality(in.b), Cardinality(in.d), CanBeDealt(in.rs, 1, in.b \cup in.d))

\* How many showdowns there are, at most (for keeping to small ones).
Boards(in) == LET m == 52 - Cardinality(in.b \cup in.d) - 2 * Len(in.rs)
                  k == 5 - Cardinality(in.b)
              IN IF k <= 0 THEN 1 ELSE IF k = 1 THEN m ELSE IF k = 2 THEN (m * (m - 1)) \div 2 ELSE m * m * m
RECURSIVE CostFrom(_, _, _)
CostFrom(rs, p, c) == IF p > Len(rs) \/ c > MaxCost THEN c ELSE CostFrom(rs, p + 1, c * (1 + Cardinality(rs[p])))
Small(in) == CostFrom(in.rs, 1, Boards(in)) <= MaxCost

\* ---- choosing -------------------------------------------------------------
\* (Arguments that depend on the state keep TLC from choosing once and for all.)
One(S) == IF Emit /\ S # {} THEN { RandomElement(S) } ELSE S
RECURSIVE Pick(_, _)
Pick(S, n) == IF n = 0 THEN {} ELSE LET x == RandomElement(S) IN {x} \cup Pick(S, n - 1)
CardSets(sizes, k) == IF Emit /\ k >= 0 THEN { Pick(Playing, RandomElement(sizes)) }
                      ELSE { S \in SUBSET Playing : Cardinality(S) \in sizes }
Seldom(n) == Emit => RandomElement(1..n) = 1
Swapped(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
SameSize(v) == { w \in Vars : Cardinality(rng[w]) = Cardinality(rng[v]) }
Way(k) == IF Emit /\ k >= 0 THEN { RandomElement(1..10) } ELSE 0..8
Fresh == [vs : UNION { [1..n -> Vars] : n \in 1..MaxPlayers }, th : Threads, kind : Kinds, tk : Tokens]

\* The inputs of the next calculation: new, or those of the last with one thing changed.
NextInputs(k) ==
  LET way == Way(k) IN
  UNION { IF w = 0 \/ w > 8 \/ latest.vs = <<>>
          THEN { [vs |-> vs, th |-> th, kind |-> kind, tk |-> tk, b |-> b, d |-> d, s |-> 0] :
                   vs \in UNION { One([1..n -> Vars]) : n \in IF Emit THEN { RandomElement(1..(MaxPlayers + 6)), 2, 3 } \cap (1..MaxPlayers) ELSE 1..MaxPlayers },
                   th \in One(Threads), kind \in One(Kinds), tk \in One(Tokens), b \in CardSets(BoardSizes, k), d \in CardSets(DeadSizes, k + 1) }
          ELSE CASE w = 1 -> { latest }
                 [] w = 2 -> { [latest EXCEPT !.vs = Swapped(latest.vs, i, j)] : i \in One(DOMAIN latest.vs), j \in One(DOMAIN latest.vs) }
                 [] w = 3 -> { [latest EXCEPT !.vs[i] = v] : i \in One(DOMAIN latest.vs), v \in One(SameSize(latest.vs[1])) }
                 [] w = 4 -> { [latest EXCEPT !.b = (@ \ {x}) \cup {y}] : x \in One(latest.b), y \in One(Playing) }
                 [] w = 5 -> { [latest EXCEPT !.d = (@ \ {x}) \cup {y}] : x \in One(latest.d \cup {0}), y \in One(Playing) }
                 \* the same cards are out of play, but not where they were
                 [] w = 6 -> { [latest EXCEPT !.b = (@ \ {x}) \cup {y}, !.d = (@ \ {y}) \cup {x}] : x \in One(latest.b), y \in One(latest.d) }
                 [] w = 7 -> { [latest EXCEPT !.th = t, !.tk = u] : t \in One(Threads), u \in One(Tokens) }
                 [] w = 8 -> { [latest EXCEPT !.kind = t] : t \in One(Kinds) } : w \in way }
Inputs(c) == [rs |-> [i \in DOMAIN c.vs |-> rng[c.vs[i]]], b |-> c.b, d |-> c.d, th |-> c.th, kind |-> c.kind, tk |-> c.tk]

\* ---- the session -----------------------------------------------------------
Idle == [at |-> "idle"]
NoInputs == [vs |-> <<>>, th |-> 1, kind |-> "exact", tk |-> 1, b |-> {}, d |-> {}, s |-> 0]
Init == /\ rng \in [Vars -> IF Emit THEN {{}} ELSE { Meaning[s] : s \in Menu }]
        /\ token = [t \in Tokens |-> FALSE]
        /\ slot = [s \in Slots |-> Idle]
        /\ latest = NoInputs /\ outs = <<>> /\ hist = <<>>
Step(e) == /\ Len(hist) < MaxSteps
           /\ hist' = Append(hist, IF Emit THEN e ELSE [op |-> e.op])
Busy == { s \in Slots : slot[s].at = "running" }

Read == /\ \E v \in One(Vars), s \in One(Menu) :
             /\ rng' = [rng EXCEPT ![v] = Meaning[s]]
             /\ Step([op |-> "read", v |-> v, t |-> s, r |-> rng'[v]])
        /\ UNCHANGED <<token, slot, latest, outs>>
Copy == /\ Seldom(2)
        /\ \E v \in One(Vars), w \in One(Vars) :
             /\ v # w /\ rng' = [rng EXCEPT ![w] = rng[v]]
             /\ Step([op |-> "copy", v |-> v, w |-> w])
        /\ UNCHANGED <<token, slot, latest, outs>>
Filter == /\ Seldom(3)
          /\ \E v \in One(Vars), b \in CardSets(BoardSizes, Len(hist)), d \in CardSets(DeadSizes, Len(hist) + 1) :
               /\ rng' = [rng EXCEPT ![v] = { h \in rng[v] : {h[1], h[2]} \cap (b \cup d) = {} }]
               /\ Step([op |-> "filter", v |-> v, b |-> SeqOfSet(b), d |-> SeqOfSet(d), r |-> rng'[v]])
          /\ UNCHANGED <<token, slot, latest, outs>>
\* One hand of a range is given another weight, or gives way to another hand.
Edit == /\ Seldom(2)
        /\ \E v \in One(IF latest.vs # <<>> THEN Range(latest.vs) ELSE Vars) : \E h \in One(rng[v]) :
             \E g \in One({ <<h[1], h[2], w>> : w \in Weights }) \cup One({ <<x[1], x[2], h[3]>> : x \in { y \in Playing \X Playing : y[1] > y[2] } }) :
               /\ g = h \/ g[3] # h[3] \/ ~\E f \in rng[v] : f[1] = g[1] /\ f[2] = g[2]
               /\ rng' = [rng EXCEPT ![v] = (@ \ {h}) \cup {g}]
               /\ Step([op |-> "edit", v |-> v, h |-> h, g |-> g, r |-> rng'[v]])
        /\ UNCHANGED <<token, slot, latest, outs>>
\* Likely in the slot of the last.
NextSlot == IF Emit /\ latest.s \in Slots \ Busy /\ RandomElement(1..2) = 1 THEN { latest.s } ELSE One(Slots \ Busy)
Start == /\ \E s \in NextSlot, c \in NextInputs(Len(hist)) :
              LET in == Inputs(c) IN
              /\ Small(in)
              \* simulated sessions hold back with what is refused anyhow
              /\ Verdict(in) # "ok" => Seldom(6)
              /\ slot' = [slot EXCEPT ![s] = [at |-> "running", in |-> in, cut |-> token[c.tk]]]
              /\ latest' = IF Emit THEN [c EXCEPT !.s = s] ELSE c
              /\ Step([op |-> "start", s |-> s, vs |-> c.vs, b |-> SeqOfSet(c.b), d |-> SeqOfSet(c.d), th |-> c.th, kind |-> c.kind, tk |-> c.tk])
         /\ UNCHANGED <<rng, token, outs>>
SetToken == /\ \E t \in One(Tokens) :
                 /\ ~token[t] /\ Seldom(IF \E s \in Busy : slot[s].in.tk = t THEN 3 ELSE 8)
                 /\ token' = [token EXCEPT ![t] = TRUE]
                 /\ slot' = [s \in Slots |-> IF s \in Busy /\ slot[s].in.tk = t THEN [slot[s] EXCEPT !.cut = TRUE] ELSE slot[s]]
                 /\ Step([op |-> "set", tk |-> t])
            /\ UNCHANGED <<rng, latest, outs>>
\* A token is used anew when nothing runs on it.
ResetToken == /\ \E t \in { u \in Tokens : token[u] /\ \A s \in Busy : slot[s].in.tk # u } :
                   /\ token' = [token EXCEPT ![t] = FALSE]
                   /\ Step([op |-> "reset", tk |-> t])
              /\ UNCHANGED <<rng, slot, latest, outs>>
Finish == /\ \E s \in One(Busy) :
               LET in == slot[s].in IN
               /\ slot' = [slot EXCEPT ![s] = Idle]
               /\ outs' = IF Emit THEN outs ELSE Append(outs, [in |-> in, cut |-> slot[s].cut, says |-> Verdict(in)])
               /\ Step([op |-> "finish", s |-> s, says |-> Verdict(in), cut |-> slot[s].cut, token |-> token[in.tk], kind |-> in.kind,
                        rs |-> in.rs, b |-> SeqOfSet(in.b), d |-> SeqOfSet(in.d)])
          /\ UNCHANGED <<rng, token, latest>>
Next == Read \/ Edit \/ Copy \/ Filter \/ Start \/ SetToken \/ ResetToken \/ Finish
Spec == Init /\ [][Next]_vars
View == <<rng, token, slot, latest, outs, Len(hist)>>

\* ---- what a user may rely on ----------------------------------------------------
RangesOK == \A v \in Vars : WellFormed(rng[v])
\* Equal inputs give equal outcomes, whenever and beside whatever they ran.
OutcomesOK == \A i, j \in DOMAIN outs :
                outs[i].in.rs = outs[j].in.rs /\ outs[i].in.b = outs[j].in.b /\ outs[i].in.d = outs[j].in.d => outs[i].says = outs[j].says
\* The order of the players does not decide whether they can be dealt hands.
OrderOK == \A s \in Busy : LET in == slot[s].in IN
             \A i, j \in DOMAIN in.rs : Verdict([in EXCEPT !.rs = Swapped(@, i, j)]) = Verdict(in)
\* Ranges rid of blocked hands are as good.
FilterOK == \A s \in Busy : LET in == slot[s].in IN
              Verdict([in EXCEPT !.rs = [i \in DOMAIN @ |-> { h \in @[i] : {h[1], h[2]} \cap (in.b \cup in.d) = {} }]]) = Verdict(in)
\* A calculation runs on the inputs it was started with, and is cut short by its own token only.
InputsKept == [][\A s \in Slots : slot[s].at = "running" /\ slot'[s].at = "running" =>
                   /\ slot'[s].in = slot[s].in
                   /\ slot'[s].cut # slot[s].cut => token'[slot[s].in.tk] /\ ~token[slot[s].in.tk]]_vars
CutOK == \A s \in Busy : token[slot[s].in.tk] => slot[s].cut
Emitted == Emit /\ Len(hist) = MaxSteps => PrintT("SE " \o ToJson(hist))
======================================================================================
