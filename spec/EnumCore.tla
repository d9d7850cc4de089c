--------------------------------- MODULE EnumCore ---------------------------------
(***************************************************************************)
(* Workers that share out the combinations of hole cards of an exact       *)
(* calculation.  A state of the calculation is a record; this module has   *)
(* the guards and effects of what a worker can do, for the model           *)
(* (EnumWorkers) and for judging recorded runs (EnumTrace) alike.          *)
(*                                                                         *)
(*   total   number of combinations, 0..total-1                            *)
(*   pos     how many have been taken up                                   *)
(*   plock, rlock  who holds the position, the results (0: nobody)         *)
(*   todo    per worker: combinations taken and not yet examined           *)
(*   mine    per worker: combinations examined and not yet handed in       *)
(*   evals   per worker: what these cost                                   *)
(*   counted combinations in the results; twice says one was added twice   *)
(*   token   the caller's cancel token                                     *)
(*   pc, last  where each worker is; whether it is handing in for good     *)
(*   progress  the reports sent, in percent;  heard  those the caller heard*)
(*   late    per worker: cost of what was examined since the token was set *)
(*   more    per worker: portions begun (examining something with nothing  *)
(*           left to hand in) since the token was set                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Nobody == 0
Percent(s) == (100 * s.pos) \div s.total

Start(workers, total) ==
  [total |-> total, pos |-> 0, plock |-> Nobody, rlock |-> Nobody,
   todo |-> [w \in workers |-> {}], mine |-> [w \in workers |-> {}], evals |-> [w \in workers |-> 0],
   counted |-> {}, twice |-> FALSE, token |-> FALSE,
   pc |-> [w \in workers |-> "idle"], last |-> [w \in workers |-> FALSE],
   progress |-> <<>>, heard |-> <<>>, late |-> [w \in workers |-> 0], more |-> [w \in workers |-> 0], returned |-> FALSE]

At(s, w, where) == s.pc[w] = where
Go(s, w, where) == [s EXCEPT !.pc[w] = where]

---------------------------------------------------------------------------
(* Taking up the next portion, under the lock of the position. *)
CanWantReserve(s, w) == At(s, w, "idle") /\ s.todo[w] = {}
WantReserve(s, w) == Go(s, w, "wantreserve")
CanEnterReserve(s, w) == At(s, w, "wantreserve") /\ s.plock = Nobody
EnterReserve(s, w) == [Go(s, w, "reserving") EXCEPT !.plock = w]
\* Any number of combinations, but none only when there are none left.
CanReserve(s, w, n) == At(s, w, "reserving") /\ n <= s.total - s.pos /\ (n = 0 => s.pos = s.total)
Reserve(s, w, n) ==
  [s EXCEPT !.plock = Nobody, !.pos = @ + n, !.todo[w] = s.pos..(s.pos + n - 1),
            !.pc[w] = IF n = 0 THEN "leaving" ELSE "idle"]

\* Examining one of one's own; nothing more before a hand-in once the limit is reached.
CanExamine(s, w, p, limit) == At(s, w, "idle") /\ p \in s.todo[w] /\ s.evals[w] < limit
Examine(s, w, p, cost) ==
  [s EXCEPT !.todo[w] = @ \ {p}, !.mine[w] = @ \cup {p}, !.evals[w] = @ + cost,
            !.late[w] = IF s.token THEN @ + cost ELSE @, !.more[w] = IF s.token /\ s.mine[w] = {} THEN @ + 1 ELSE @]

(* Handing in, under the lock of the results: for the time being, or for good. *)
CanWantHandIn(s, w, last) == At(s, w, IF last THEN "leaving" ELSE "idle") /\ (last \/ s.mine[w] # {})
WantHandIn(s, w, last) == [Go(s, w, "wanthandin") EXCEPT !.last[w] = last]
CanEnterHandIn(s, w) == At(s, w, "wanthandin") /\ s.rlock = Nobody
EnterHandIn(s, w) == [Go(s, w, "handingin") EXCEPT !.rlock = w]
\* The position is read for the report, so nobody may be moving it.
CanHandIn(s, w) == At(s, w, "handingin") /\ s.plock = Nobody
HandIn(s, w, percent) ==
  [s EXCEPT !.rlock = Nobody, !.twice = @ \/ (s.mine[w] \cap s.counted # {}), !.counted = @ \cup s.mine[w],
            !.mine[w] = {}, !.evals[w] = 0, !.progress = Append(@, percent),
            !.pc[w] = IF s.last[w] THEN "done" ELSE "check"]

\* After a hand-in the worker looks at the token.
CanCheck(s, w) == At(s, w, "check")
Check(s, w) == Go(s, w, IF s.token THEN "leaving" ELSE "idle")

Cancel(s) == [s EXCEPT !.token = TRUE]
CanHear(s) == Len(s.heard) < Len(s.progress)
Hear(s) == [s EXCEPT !.heard = Append(@, s.progress[Len(s.heard) + 1])]
CanReturn(s) == (\A w \in DOMAIN s.pc : At(s, w, "done")) /\ ~CanHear(s) /\ ~s.returned
Return(s) == [s EXCEPT !.returned = TRUE]

---------------------------------------------------------------------------
(* What has to hold of a state. *)
\* At most one portion is begun by a worker once the token is set.
OneMore(s) == \A w \in DOMAIN s.pc : s.more[w] <= 1
Examined(s) == s.counted \cup UNION { s.mine[w] : w \in DOMAIN s.pc }
Taken(s) == 0..(s.pos - 1)

\* Every combination taken up is in exactly one place.
Accounted(s) ==
  /\ Examined(s) \cup UNION { s.todo[w] : w \in DOMAIN s.pc } = Taken(s)
  /\ \A w \in DOMAIN s.pc : s.todo[w] \cap Examined(s) = {} /\ s.mine[w] \cap s.counted = {}
  /\ \A v, w \in DOMAIN s.pc : v # w => s.todo[v] \cap s.todo[w] = {} /\ s.mine[v] \cap s.mine[w] = {}
  /\ ~s.twice
Locked(s) == \A w \in DOMAIN s.pc : (At(s, w, "reserving") <=> s.plock = w) /\ (At(s, w, "handingin") <=> s.rlock = w)
Monotone(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
ProgressOK(s) == Monotone(s.progress) /\ \A i \in DOMAIN s.progress : s.progress[i] \in 0..100
\* When the call returns: everything was counted, or the token was set and everything examined was.
Complete(s) == (s.token \/ s.counted = 0..(s.total - 1)) /\ \A w \in DOMAIN s.pc : s.mine[w] = {}
\* The caller has heard all reports, the last of which is 100 if everything was taken up.
Reported(s) ==
  /\ s.heard = s.progress /\ ProgressOK(s)
  /\ (s.pos = s.total => s.progress[Len(s.progress)] = 100)
ReturnOK(s) == s.returned => Complete(s) /\ Reported(s)
===================================================================================
