-------------------------------- MODULE EnumTrace --------------------------------
(***************************************************************************)
(* Judges recorded runs of the exact calculation: the events of all        *)
(* workers in one order have to be a behaviour of the workers of EnumCore  *)
(* (with any policy of how much to take and when to hand in) that ends as  *)
(* ReturnOK says.  Events:                                                 *)
(*   <<"R", w, start, end>> took start..end-1      <<"X", w, p>> examined p*)
(*   <<"L", w>> locked the results                                         *)
(*   <<"H", w, last, percent>> handed in           <<"E", w>> is done      *)
(*   <<"T", 0>> the token is about to be set      <<"U", 0>> it is set     *)
(* Judged says what is judged: the workers' "work", the "reports", what    *)
(* they begin once the "token" is set.                                     *)
(***************************************************************************)
EXTENDS EnumCore, Judge
CONSTANT Judged
Case == Trace[at]
Work(ok) == "work" \in Judged => ok
Reports(ok) == "reports" \in Judged => ok
Token(ok) == "token" \in Judged => ok
Bad == [bad |-> TRUE]
IsBad(x) == "bad" \in DOMAIN x

\* The report is the percentage of some position since the results were locked, rounded either way.
PercentOK(p, from, to, total) == p \in 0..100 /\ p * total >= 100 * from - total /\ p * total <= 100 * to + total

Apply(x, e) ==
  LET s == x.s
      w == e[2]
      ok(t) == [x EXCEPT !.s = t]
  IN CASE e[1] = "R" ->
            LET a == WantReserve(s, w)
                b == EnterReserve(a, w)
                n == e[4] - e[3]
            IN IF Work(CanWantReserve(s, w) /\ CanEnterReserve(a, w) /\ e[3] = s.pos /\ n >= 0 /\ CanReserve(b, w, n))
               THEN ok([Go(Reserve(b, w, n), w, "idle") EXCEPT !.pos = e[4]]) ELSE Bad
       [] e[1] = "X" -> IF Work(CanExamine(s, w, e[3], 1)) 
                         \* a portion begun while the token is being set may or may not be one more
                         THEN ok([Examine(s, w, e[3], 0) EXCEPT !.more[w] = IF x.set THEN @ ELSE 0]) ELSE Bad
       [] e[1] = "L" -> IF Work(s.rlock = Nobody) THEN [x EXCEPT !.s = EnterHandIn(s, w), !.from = s.pos] ELSE Bad
       [] e[1] = "H" -> LET t == [s EXCEPT !.last[w] = e[3]]
                        IN IF Work(CanHandIn(t, w)) /\ Reports(PercentOK(e[4], x.from, s.pos, s.total))
                           THEN LET u == HandIn(t, w, e[4]) IN ok(Go(u, w, IF e[3] THEN "done" ELSE "idle")) ELSE Bad
       [] e[1] = "E" -> IF Work(At(s, w, "done")) THEN ok(s) ELSE Bad
       [] e[1] = "T" -> ok(Cancel(s))
       [] e[1] = "U" -> [x EXCEPT !.set = TRUE]

(***************************************************************************)
(* Case number at is walked event by event.                                *)
(***************************************************************************)
VARIABLES i, x
TraceInit == at \in 1..N /\ i = 0 /\ x = [s |-> Start(1..Case.workers, Case.total), from |-> 0, set |-> FALSE]
TraceNext == ~IsBad(x) /\ i < Len(Case.ev) /\ i' = i + 1 /\ x' = Apply(x, Case.ev[i + 1]) /\ UNCHANGED at
TraceSpec == TraceInit /\ [][TraceNext]_<<at, i, x>>

Final(s) ==
  LET t == [s EXCEPT !.returned = TRUE, !.heard = Case.heard]
  IN /\ Work(Accounted(s) /\ (\A w \in 1..Case.workers : At(s, w, "done")) /\ Complete(t))
     /\ Reports(Reported(t))
\* What has to hold of every state of the specification holds along the run, too.
Accepted == ~IsBad(x) /\ Work(Accounted(x.s)) /\ Token(OneMore(x.s)) /\ (i = Len(Case.ev) => Final(x.s))
===================================================================================
