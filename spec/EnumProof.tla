------------------------------- MODULE EnumProof -------------------------------
(***************************************************************************)
(* What TLC checks in EnumWorkers with a few workers and combinations,     *)
(* proved (tlapm) for any number of workers and combinations, any sizes of *)
(* portions, and any limit at which results are handed in:                 *)
(*   nothing is lost or counted twice        InvAccounted, InvComplete     *)
(*   the reports are what they should be     InvReported                   *)
(*   a worker stops soon after the token     InvSoon, InvOnce              *)
(***************************************************************************)
EXTENDS EnumCore, TLAPS
CONSTANTS Workers, Total, Limit, MaxCost
ASSUME Assumed == /\ Workers \subseteq Nat \ {Nobody} /\ Total \in Nat \ {0}
                  /\ Limit \in Nat \ {0} /\ MaxCost \in Nat
VARIABLE s

Places == {"idle", "wantreserve", "reserving", "wanthandin", "handingin", "check", "leaving", "done"}

Init == s = Start(Workers, Total)
AskReserve(w) == CanWantReserve(s, w) /\ s' = WantReserve(s, w)
StartReserve(w) == CanEnterReserve(s, w) /\ s' = EnterReserve(s, w)
EndReserve(w) == \E n \in Nat : CanReserve(s, w, n) /\ s' = Reserve(s, w, n)
Look(w) == \E p \in Nat, cost \in 0..MaxCost : CanExamine(s, w, p, Limit) /\ s' = Examine(s, w, p, cost)
AskHandIn(w) == \E last \in BOOLEAN : CanWantHandIn(s, w, last) /\ s' = WantHandIn(s, w, last)
StartHandIn(w) == CanEnterHandIn(s, w) /\ s' = EnterHandIn(s, w)
EndHandIn(w) == CanHandIn(s, w) /\ s' = HandIn(s, w, Percent(s))
Ask(w) == CanCheck(s, w) /\ s' = Check(s, w)
SetToken == ~s.returned /\ s' = Cancel(s)
HearOne == CanHear(s) /\ s' = Hear(s)
Finish == CanReturn(s) /\ s' = Return(s)
Step(w) == AskReserve(w) \/ StartReserve(w) \/ EndReserve(w) \/ Look(w) \/ AskHandIn(w) \/ StartHandIn(w) \/ EndHandIn(w) \/ Ask(w)
Next == (\E w \in Workers : Step(w)) \/ SetToken \/ HearOne \/ Finish
Spec == Init /\ [][Next]_s

TypeOK ==
  s \in [total : Nat, pos : Nat, plock : Nat, rlock : Nat,
         todo : [Workers -> SUBSET Nat], mine : [Workers -> SUBSET Nat], evals : [Workers -> Nat],
         counted : SUBSET Nat, twice : BOOLEAN, token : BOOLEAN,
         pc : [Workers -> Places], last : [Workers -> BOOLEAN],
         progress : Seq(Nat), heard : Seq(Nat), late : [Workers -> Nat], more : [Workers -> Nat], returned : BOOLEAN]
  /\ s.total = Total /\ s.pos <= Total

\* Where everything is, one combination at a time.
Where ==
  /\ \A w \in Workers : s.todo[w] \subseteq 0..(s.pos - 1) /\ s.mine[w] \subseteq 0..(s.pos - 1)
  /\ s.counted \subseteq 0..(s.pos - 1)
  /\ \A p \in 0..(s.pos - 1) : p \in s.counted \/ \E w \in Workers : p \in s.todo[w] \/ p \in s.mine[w]
Apart ==
  /\ \A w \in Workers : s.todo[w] \cap s.counted = {} /\ s.mine[w] \cap s.counted = {}
  /\ \A v, w \in Workers : s.todo[v] \cap s.mine[w] = {}
  /\ \A v, w \in Workers : v # w => s.todo[v] \cap s.todo[w] = {} /\ s.mine[v] \cap s.mine[w] = {}
  /\ ~s.twice
Locks == \A w \in Workers : (s.pc[w] = "reserving" <=> s.plock = w) /\ (s.pc[w] = "handingin" <=> s.rlock = w)
Leaving(w) == s.pc[w] \in {"leaving", "done"} \/ (s.pc[w] \in {"wanthandin", "handingin"} /\ s.last[w])
Duties ==
  /\ \A w \in Workers : s.pc[w] \in {"wantreserve", "reserving"} => s.todo[w] = {}
  /\ \A w \in Workers : Leaving(w) => s.token \/ (s.todo[w] = {} /\ s.pos = Total)
  /\ \A w \in Workers : s.pc[w] = "done" => s.mine[w] = {}
  /\ s.returned => \A w \in Workers : s.pc[w] = "done"
Inv == TypeOK /\ Where /\ Apart /\ Locks /\ Duties

LEMMA DivNat == \A a \in Nat, T \in Nat \ {0} : (100 * a) \div T \in Nat
OBVIOUS
LEMMA DivSame == \A T \in Nat \ {0} : (100 * T) \div T = 100
OBVIOUS
LEMMA DivMonotone == \A a, b \in Nat, T \in Nat \ {0} : a <= b => a \div T <= b \div T
<1> SUFFICES ASSUME NEW a \in Nat, NEW b \in Nat, NEW T \in Nat \ {0}, a <= b PROVE a \div T <= b \div T OBVIOUS
<1> DEFINE q == a \div T r == b \div T
<1>1. q \in Int /\ r \in Int OBVIOUS
<1>2. T * q <= a /\ b < T * r + T
  <2>1. a = T * q + (a % T) /\ 0 <= a % T /\ a % T \in Int BY Z3
  <2>2. b = T * r + (b % T) /\ b % T < T /\ b % T \in Int OBVIOUS
  <2> QED BY <2>1, <2>2, <1>1
<1>3. T * q < T * r + T BY <1>1, <1>2
<1>4. ASSUME r < q PROVE FALSE
  <2>1. r + 1 <= q BY <1>4, <1>1
  <2>2. T * (r + 1) <= T * q BY <2>1, <1>1
  <2> QED BY <2>2, <1>3, <1>1
<1> QED BY <1>1, <1>4

LEMMA Begins == Init => Inv
  BY Assumed DEF Init, Start, Inv, TypeOK, Where, Apart, Locks, Duties, Leaving, Nobody, Places

LEMMA Keeps == Inv /\ [Next]_s => Inv'
<1> SUFFICES ASSUME Inv, [Next]_s PROVE Inv' OBVIOUS
<1> USE Assumed DEF Places, At, Go, Nobody
<1>1. ASSUME NEW w \in Workers, AskReserve(w) PROVE Inv'
  <2>1. TypeOK' BY <1>1 DEF AskReserve, CanWantReserve, WantReserve, Inv, TypeOK, Duties
  <2>2. Where' BY <1>1 DEF AskReserve, CanWantReserve, WantReserve, Inv, TypeOK, Where, Duties
  <2>3. Apart' BY <1>1 DEF AskReserve, CanWantReserve, WantReserve, Inv, TypeOK, Apart, Where
  <2>4. Locks' BY <1>1 DEF AskReserve, CanWantReserve, WantReserve, Inv, TypeOK, Locks
  <2>5. Duties' BY <1>1 DEF AskReserve, CanWantReserve, WantReserve, Inv, TypeOK, Duties, Leaving, Locks
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Inv
<1>2. ASSUME NEW w \in Workers, StartReserve(w) PROVE Inv'
  <2>1. TypeOK' BY <1>2 DEF StartReserve, CanEnterReserve, EnterReserve, Inv, TypeOK, Duties
  <2>2. Where' BY <1>2 DEF StartReserve, CanEnterReserve, EnterReserve, Inv, TypeOK, Where, Duties
  <2>3. Apart' BY <1>2 DEF StartReserve, CanEnterReserve, EnterReserve, Inv, TypeOK, Apart, Where
  <2>4. Locks' BY <1>2 DEF StartReserve, CanEnterReserve, EnterReserve, Inv, TypeOK, Locks
  <2>5. Duties' BY <1>2 DEF StartReserve, CanEnterReserve, EnterReserve, Inv, TypeOK, Duties, Leaving, Locks
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Inv
<1>3. ASSUME NEW w \in Workers, EndReserve(w) PROVE Inv'
  <2> PICK n \in Nat : CanReserve(s, w, n) /\ s' = Reserve(s, w, n) BY <1>3 DEF EndReserve
  <2>a. s.pc \in [Workers -> Places] /\ s.todo \in [Workers -> SUBSET Nat] /\ s.pos \in Nat /\ s.pos <= Total /\ s.total = Total BY DEF Inv, TypeOK
  <2>b. /\ s'.pos = s.pos + n /\ s'.todo = [s.todo EXCEPT ![w] = s.pos..(s.pos + n - 1)] /\ s'.mine = s.mine
        /\ s'.pc = [s.pc EXCEPT ![w] = IF n = 0 THEN "leaving" ELSE "idle"]
        /\ s'.plock = Nobody /\ s'.counted = s.counted
    BY DEF Reserve, Inv, TypeOK
  <2>c. n <= Total - s.pos BY <2>a DEF CanReserve
  <2>d. s.todo[w] = {} BY DEF CanReserve, Inv, Duties
  <2>e. \A v \in Workers : s'.todo[v] = (IF v = w THEN s.pos..(s.pos + n - 1) ELSE s.todo[v]) BY <2>a, <2>b
  <2>1. TypeOK'
    <3>1. s.pos..(s.pos + n - 1) \subseteq Nat /\ s.pos + n \in Nat /\ s.pos + n <= Total BY <2>a, <2>c
    <3>2. s'.todo \in [Workers -> SUBSET Nat] /\ s'.pc \in [Workers -> Places] /\ s'.pos \in Nat BY <2>a, <2>b, <3>1
    <3>3. s' = [s EXCEPT !.plock = Nobody, !.pos = s'.pos, !.todo = s'.todo, !.pc = s'.pc] BY <2>b DEF Reserve, Inv, TypeOK
    <3>4. Nobody \in Nat BY DEF Nobody
    <3>5. TypeOK BY DEF Inv
    <3>6. s'.total = s.total BY <3>3, <3>5 DEF TypeOK
    <3> HIDE DEF Places, Nobody
    <3> HIDE Inv
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6, <2>a, <2>b DEF TypeOK
  <2>2. Where'
    <3>1. \A x \in 0..(s.pos - 1) : x \in 0..(s.pos + n - 1) BY <2>a
    <3>2. \A x \in s.pos..(s.pos + n - 1) : x \in 0..(s.pos + n - 1) BY <2>a
    <3>3. \A x \in 0..(s.pos + n - 1) : x \in 0..(s.pos - 1) \/ x \in s.pos..(s.pos + n - 1) BY <2>a
    <3>4. \A v \in Workers : s'.todo[v] \subseteq 0..(s.pos + n - 1) /\ s'.mine[v] \subseteq 0..(s.pos + n - 1) BY <2>b, <2>e, <3>1, <3>2 DEF Inv, Where
    <3>5. s'.counted \subseteq 0..(s.pos + n - 1) BY <2>b, <3>1 DEF Inv, Where
    <3>6. ASSUME NEW x \in 0..(s.pos + n - 1) PROVE x \in s'.counted \/ \E v \in Workers : x \in s'.todo[v] \/ x \in s'.mine[v]
      <4>1. CASE x \in s.pos..(s.pos + n - 1) BY <4>1, <2>e
      <4>2. CASE x \in 0..(s.pos - 1) BY <4>2, <2>b, <2>d, <2>e DEF Inv, Where
      <4> QED BY <3>3, <4>1, <4>2
    <3>a. s'.pos = s.pos + n BY <2>b
    <3>b. s'.pos - 1 = s.pos + n - 1 BY ONLY <3>a, <2>a
    <3>7. 0..(s'.pos - 1) = 0..(s.pos + n - 1) BY ONLY <3>b
    <3>8. \A x \in 0..(s.pos + n - 1) : x \in s'.counted \/ \E v \in Workers : x \in s'.todo[v] \/ x \in s'.mine[v] BY <3>6
    <3> QED BY ONLY <3>4, <3>5, <3>7, <3>8 DEF Where
  <2>3. Apart'
    <3>1. s'.twice = s.twice BY DEF Reserve, Inv, TypeOK
    <3>2. \A x \in s.pos..(s.pos + n - 1) : x \notin 0..(s.pos - 1) BY <2>a
    <3>3. \A x \in s.pos..(s.pos + n - 1) : x \notin s.counted /\ \A v \in Workers : x \notin s.todo[v] /\ x \notin s.mine[v] BY <3>2 DEF Inv, Where
    <3>4. \A v \in Workers : s'.todo[v] \cap s'.counted = {} /\ s'.mine[v] \cap s'.counted = {} BY <2>b, <2>e, <3>3 DEF Inv, Apart
    <3>5. \A u, v \in Workers : s'.todo[u] \cap s'.mine[v] = {} BY <2>b, <2>e, <3>3 DEF Inv, Apart
    <3>6. \A u, v \in Workers : u # v => s'.todo[u] \cap s'.todo[v] = {} /\ s'.mine[u] \cap s'.mine[v] = {} BY <2>b, <2>e, <3>3 DEF Inv, Apart
    <3> QED BY <3>1, <3>4, <3>5, <3>6 DEF Inv, Apart
  <2>4. Locks'
    <3>1. s'.rlock = s.rlock BY DEF Reserve, Inv, TypeOK
    <3>2. s.pc[w] = "reserving" /\ s.plock = w BY DEF CanReserve, Inv, Locks
    <3>3. \A v \in Workers : s'.pc[v] = IF v = w THEN (IF n = 0 THEN "leaving" ELSE "idle") ELSE s.pc[v] BY <2>a, <2>b
    <3> QED BY <3>1, <3>2, <3>3, <2>b DEF Inv, Locks
  <2>5. Duties'
    <3>0. s.pc \in [Workers -> Places] /\ s.todo \in [Workers -> SUBSET Nat] /\ s.pos \in Nat /\ Total \in Nat /\ s.pos <= Total /\ s.total = Total BY DEF Inv, TypeOK
    <3>1. /\ s'.pos = s.pos + n /\ s'.todo = [s.todo EXCEPT ![w] = s.pos..(s.pos + n - 1)] /\ s'.mine = s.mine
          /\ s'.token = s.token /\ s'.last = s.last /\ s'.returned = s.returned
          /\ s'.pc = [s.pc EXCEPT ![w] = IF n = 0 THEN "leaving" ELSE "idle"]
      BY DEF Reserve, Inv, TypeOK
    <3>2. s.pc[w] = "reserving" /\ n <= Total - s.pos /\ (n = 0 => s.pos = Total) BY <3>0 DEF CanReserve
    <3>3. \A v \in Workers : s'.pc[v] = (IF v = w THEN (IF n = 0 THEN "leaving" ELSE "idle") ELSE s.pc[v])
                          /\ s'.todo[v] = (IF v = w THEN s.pos..(s.pos + n - 1) ELSE s.todo[v]) BY <3>0, <3>1
    <3>4. n = 0 => s.pos..(s.pos + n - 1) = {} BY <3>0
    <3>5. s.pos = Total => n = 0 BY <3>0, <3>2
    <3>d1. \A v \in Workers : s'.pc[v] \in {"wantreserve", "reserving"} => s'.todo[v] = {} BY <3>3 DEF Inv, Duties
    <3>d2. \A v \in Workers : (s'.pc[v] \in {"leaving", "done"} \/ (s'.pc[v] \in {"wanthandin", "handingin"} /\ s'.last[v]))
               => s'.token \/ (s'.todo[v] = {} /\ s'.pos = Total)
      <4> SUFFICES ASSUME NEW v \in Workers, s'.pc[v] \in {"leaving", "done"} \/ (s'.pc[v] \in {"wanthandin", "handingin"} /\ s'.last[v])
                   PROVE s'.token \/ (s'.todo[v] = {} /\ s'.pos = Total) OBVIOUS
      <4>1. CASE v = w BY <4>1, <3>0, <3>1, <3>2, <3>3, <3>4
      <4>2. CASE v # w
        <5>1. s.token \/ (s.todo[v] = {} /\ s.pos = Total) BY <4>2, <3>1, <3>3 DEF Inv, Duties, Leaving
        <5> QED BY <5>1, <4>2, <3>0, <3>1, <3>3, <3>5
      <4> QED BY <4>1, <4>2
    <3>d3. \A v \in Workers : s'.pc[v] = "done" => s'.mine[v] = {} BY <3>1, <3>3 DEF Inv, Duties
    <3>d4. s'.returned => \A v \in Workers : s'.pc[v] = "done" BY <3>1, <3>2, <3>3 DEF Inv, Duties
    <3> QED BY <3>d1, <3>d2, <3>d3, <3>d4, <3>1 DEF Duties, Leaving
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Inv
<1>4. ASSUME NEW w \in Workers, Look(w) PROVE Inv'
  <2>1. TypeOK' BY <1>4 DEF Look, CanExamine, Examine, Inv, TypeOK, Duties
  <2>2. Where' BY <1>4 DEF Look, CanExamine, Examine, Inv, TypeOK, Where, Duties
  <2>3. Apart'
    <3> PICK p \in Nat, cost \in 0..MaxCost : CanExamine(s, w, p, Limit) /\ s' = Examine(s, w, p, cost) BY <1>4 DEF Look
    <3>0. s.mine \in [Workers -> SUBSET Nat] /\ s.todo \in [Workers -> SUBSET Nat] BY DEF Inv, TypeOK
    <3>1. /\ s'.todo = [s.todo EXCEPT ![w] = @ \ {p}] /\ s'.mine = [s.mine EXCEPT ![w] = @ \cup {p}]
          /\ s'.counted = s.counted /\ s'.twice = s.twice
      BY DEF Examine, Inv, TypeOK
    <3>2. p \in s.todo[w] BY DEF CanExamine
    <3>3. \A v \in Workers : s'.todo[v] = (IF v = w THEN s.todo[v] \ {p} ELSE s.todo[v])
                          /\ s'.mine[v] = (IF v = w THEN s.mine[v] \cup {p} ELSE s.mine[v]) BY <3>0, <3>1
    <3>4. \A v \in Workers : s.todo[v] \cap s.counted = {} /\ s.mine[v] \cap s.counted = {} BY DEF Inv, Apart
    <3>5. \A u, v \in Workers : s.todo[u] \cap s.mine[v] = {} BY DEF Inv, Apart
    <3>6. \A u, v \in Workers : u # v => s.todo[u] \cap s.todo[v] = {} /\ s.mine[u] \cap s.mine[v] = {} BY DEF Inv, Apart
    <3>7. ~s'.twice BY <3>1 DEF Inv, Apart
    <3>a. \A v \in Workers : s'.todo[v] \cap s'.counted = {} /\ s'.mine[v] \cap s'.counted = {} BY <3>1, <3>2, <3>3, <3>4
    <3>b. \A u, v \in Workers : s'.todo[u] \cap s'.mine[v] = {}
      <4> SUFFICES ASSUME NEW u \in Workers, NEW v \in Workers PROVE s'.todo[u] \cap s'.mine[v] = {} OBVIOUS
      <4>1. s.todo[u] \cap s.mine[v] = {} BY <3>5
      <4>2. u # w => p \notin s.todo[u] BY <3>2, <3>6
      <4> QED BY <4>1, <4>2, <3>3
    <3>c. \A u, v \in Workers : u # v => s'.todo[u] \cap s'.todo[v] = {} /\ s'.mine[u] \cap s'.mine[v] = {}
      <4> SUFFICES ASSUME NEW u \in Workers, NEW v \in Workers, u # v PROVE s'.todo[u] \cap s'.todo[v] = {} /\ s'.mine[u] \cap s'.mine[v] = {} OBVIOUS
      <4>1. s.todo[u] \cap s.todo[v] = {} /\ s.mine[u] \cap s.mine[v] = {} BY <3>6
      <4>2. p \notin s.mine[u] /\ p \notin s.mine[v] BY <3>2, <3>5
      <4> QED BY <4>1, <4>2, <3>3
    <3> QED BY <3>a, <3>b, <3>c, <3>7 DEF Apart
  <2>4. Locks' BY <1>4 DEF Look, CanExamine, Examine, Inv, TypeOK, Locks
  <2>5. Duties' BY <1>4 DEF Look, CanExamine, Examine, Inv, TypeOK, Duties, Leaving, Locks
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Inv
<1>5. ASSUME NEW w \in Workers, AskHandIn(w) PROVE Inv'
  <2>1. TypeOK' BY <1>5 DEF AskHandIn, CanWantHandIn, WantHandIn, Inv, TypeOK, Duties
  <2>2. Where' BY <1>5 DEF AskHandIn, CanWantHandIn, WantHandIn, Inv, TypeOK, Where, Duties
  <2>3. Apart' BY <1>5 DEF AskHandIn, CanWantHandIn, WantHandIn, Inv, TypeOK, Apart, Where
  <2>4. Locks' BY <1>5 DEF AskHandIn, CanWantHandIn, WantHandIn, Inv, TypeOK, Locks
  <2>5. Duties' BY <1>5 DEF AskHandIn, CanWantHandIn, WantHandIn, Inv, TypeOK, Duties, Leaving, Locks
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Inv
<1>6. ASSUME NEW w \in Workers, StartHandIn(w) PROVE Inv'
  <2>1. TypeOK' BY <1>6 DEF StartHandIn, CanEnterHandIn, EnterHandIn, Inv, TypeOK, Duties
  <2>2. Where' BY <1>6 DEF StartHandIn, CanEnterHandIn, EnterHandIn, Inv, TypeOK, Where, Duties
  <2>3. Apart' BY <1>6 DEF StartHandIn, CanEnterHandIn, EnterHandIn, Inv, TypeOK, Apart, Where
  <2>4. Locks' BY <1>6 DEF StartHandIn, CanEnterHandIn, EnterHandIn, Inv, TypeOK, Locks
  <2>5. Duties' BY <1>6 DEF StartHandIn, CanEnterHandIn, EnterHandIn, Inv, TypeOK, Duties, Leaving, Locks
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Inv
<1>7. ASSUME NEW w \in Workers, EndHandIn(w) PROVE Inv'
  <2> DEFINE percent == Percent(s)
  <2> CanHandIn(s, w) /\ s' = HandIn(s, w, percent) BY <1>7 DEF EndHandIn
  <2> percent \in Nat BY DivNat DEF Inv, TypeOK, Percent
  <2> HIDE DEF percent
  <2>0. /\ s.progress \in Seq(Nat) /\ s.counted \subseteq Nat /\ s.mine[w] \subseteq Nat
        /\ s.pc \in [Workers -> Places] /\ s.mine \in [Workers -> SUBSET Nat] /\ s.evals \in [Workers -> Nat]
    BY DEF Inv, TypeOK
  <2>a. Append(s.progress, percent) \in Seq(Nat) BY <2>0
  <2>b. /\ s'.total = s.total /\ s'.pos = s.pos /\ s'.plock = s.plock /\ s'.rlock = Nobody
        /\ s'.todo = s.todo /\ s'.mine = [s.mine EXCEPT ![w] = {}] /\ s'.evals = [s.evals EXCEPT ![w] = 0]
        /\ s'.counted = s.counted \cup s.mine[w] /\ s'.twice = (s.twice \/ (s.mine[w] \cap s.counted # {}))
        /\ s'.token = s.token /\ s'.last = s.last /\ s'.late = s.late /\ s'.more = s.more /\ s'.returned = s.returned
        /\ s'.pc = [s.pc EXCEPT ![w] = IF s.last[w] THEN "done" ELSE "check"]
        /\ s'.progress = Append(s.progress, percent) /\ s'.heard = s.heard
    BY DEF HandIn, Inv, TypeOK
  <2>c. DOMAIN s' = DOMAIN s /\ s' = [x \in DOMAIN s |-> s'[x]] BY DEF HandIn, Inv, TypeOK
  <2>d. s.pc[w] = "handingin" /\ s.plock = Nobody BY DEF CanHandIn
  <2>1. TypeOK'
    <3>1. s' = [total |-> s'.total, pos |-> s'.pos, plock |-> s'.plock, rlock |-> s'.rlock,
         todo |-> s'.todo, mine |-> s'.mine, evals |-> s'.evals, counted |-> s'.counted, twice |-> s'.twice,
         token |-> s'.token, pc |-> s'.pc, last |-> s'.last, progress |-> s'.progress, heard |-> s'.heard,
         late |-> s'.late, more |-> s'.more, returned |-> s'.returned]
      BY <2>b DEF HandIn, Inv, TypeOK
    <3>2. s'.twice \in BOOLEAN /\ s'.counted \subseteq Nat BY <2>b, <2>0
    <3>3. s'.pc \in [Workers -> Places] /\ s'.mine \in [Workers -> SUBSET Nat] /\ s'.evals \in [Workers -> Nat] BY <2>b, <2>0
    <3> HIDE DEF Places
    <3> QED BY <3>1, <3>2, <3>3, <2>a, <2>b DEF Inv, TypeOK
  <2>2. Where'
    <3>1. \A v \in Workers : s'.mine[v] = IF v = w THEN {} ELSE s.mine[v] BY <2>b, <2>0
    <3> QED BY <3>1, <2>b DEF Inv, Where
  <2>3. Apart'
    <3>1. \A v \in Workers : s'.mine[v] = IF v = w THEN {} ELSE s.mine[v] BY <2>b, <2>0
    <3>2. \A v \in Workers : s.todo[v] \cap s.mine[w] = {} /\ (v # w => s.mine[v] \cap s.mine[w] = {}) BY DEF Inv, Apart
    <3>3. ~s'.twice BY <2>b DEF Inv, Apart
    <3> QED BY <3>1, <3>2, <3>3, <2>b DEF Inv, Apart
  <2>4. Locks'
    <3>1. \A v \in Workers : s'.pc[v] = IF v = w THEN (IF s.last[w] THEN "done" ELSE "check") ELSE s.pc[v] BY <2>b, <2>0
    <3>2. s.rlock = w /\ w # Nobody BY <2>d DEF Inv, Locks
    <3>3. \A v \in Workers : v # Nobody OBVIOUS
    <3> QED BY <3>1, <3>2, <3>3, <2>b, <2>d DEF Inv, Locks
  <2>5. Duties' BY <1>7 DEF EndHandIn, CanHandIn, HandIn, Inv, TypeOK, Duties, Leaving, Locks
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Inv
<1>8. ASSUME NEW w \in Workers, Ask(w) PROVE Inv'
  <2>1. TypeOK' BY <1>8 DEF Ask, CanCheck, Check, Inv, TypeOK, Duties
  <2>2. Where' BY <1>8 DEF Ask, CanCheck, Check, Inv, TypeOK, Where, Duties
  <2>3. Apart' BY <1>8 DEF Ask, CanCheck, Check, Inv, TypeOK, Apart, Where
  <2>4. Locks' BY <1>8 DEF Ask, CanCheck, Check, Inv, TypeOK, Locks
  <2>5. Duties' BY <1>8 DEF Ask, CanCheck, Check, Inv, TypeOK, Duties, Leaving, Locks
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Inv
<1>9. CASE SetToken
  <2>1. TypeOK' BY <1>9 DEF SetToken, Cancel, Inv, TypeOK, Duties
  <2>2. Where' BY <1>9 DEF SetToken, Cancel, Inv, TypeOK, Where, Duties
  <2>3. Apart' BY <1>9 DEF SetToken, Cancel, Inv, TypeOK, Apart, Where
  <2>4. Locks' BY <1>9 DEF SetToken, Cancel, Inv, TypeOK, Locks
  <2>5. Duties' BY <1>9 DEF SetToken, Cancel, Inv, TypeOK, Duties, Leaving, Locks
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Inv
<1>10. CASE HearOne
  <2>1. TypeOK'
    <3>1. s.heard \in Seq(Nat) /\ s.progress \in Seq(Nat) /\ Len(s.heard) < Len(s.progress) BY <1>10 DEF HearOne, CanHear, Inv, TypeOK
    <3>2. Len(s.heard) + 1 \in 1..Len(s.progress) BY <3>1
    <3>3. s.progress[Len(s.heard) + 1] \in Nat BY <3>1, <3>2
    <3>4. Append(s.heard, s.progress[Len(s.heard) + 1]) \in Seq(Nat) BY <3>1, <3>3
    <3>5. s' = [s EXCEPT !.heard = Append(s.heard, s.progress[Len(s.heard) + 1])] BY <1>10 DEF HearOne, Hear
    <3> HIDE DEF Places
    <3> QED BY <3>4, <3>5 DEF Inv, TypeOK
  <2>2. Where' BY <1>10 DEF HearOne, CanHear, Hear, Inv, TypeOK, Where, Duties
  <2>3. Apart' BY <1>10 DEF HearOne, CanHear, Hear, Inv, TypeOK, Apart, Where
  <2>4. Locks' BY <1>10 DEF HearOne, CanHear, Hear, Inv, TypeOK, Locks
  <2>5. Duties' BY <1>10 DEF HearOne, CanHear, Hear, Inv, TypeOK, Duties, Leaving, Locks
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Inv
<1>11. CASE Finish
  <2>1. TypeOK' BY <1>11 DEF Finish, CanReturn, CanHear, Return, Inv, TypeOK, Duties
  <2>2. Where' BY <1>11 DEF Finish, CanReturn, CanHear, Return, Inv, TypeOK, Where, Duties
  <2>3. Apart' BY <1>11 DEF Finish, CanReturn, CanHear, Return, Inv, TypeOK, Apart, Where
  <2>4. Locks' BY <1>11 DEF Finish, CanReturn, CanHear, Return, Inv, TypeOK, Locks
  <2>5. Duties' BY <1>11 DEF Finish, CanReturn, CanHear, Return, Inv, TypeOK, Duties, Leaving, Locks
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Inv
<1>12. CASE UNCHANGED s
  BY <1>12 DEF Inv, TypeOK, Where, Apart, Locks, Duties, Leaving
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12 DEF Next, Step


---------------------------------------------------------------------------
\* The reports.
Reports ==
  /\ \A i \in 1..Len(s.progress) : s.progress[i] <= Percent(s)
  /\ \A i, j \in 1..Len(s.progress) : i <= j => s.progress[i] <= s.progress[j]
  /\ (s.pos = Total /\ \A w \in Workers : s.pc[w] = "done") => Len(s.progress) > 0 /\ s.progress[Len(s.progress)] = 100
  /\ Len(s.heard) <= Len(s.progress) /\ \A i \in 1..Len(s.heard) : s.heard[i] = s.progress[i]
  /\ s.returned => Len(s.heard) = Len(s.progress)

LEMMA BeginsReports == Init => Reports
  BY Assumed DEF Init, Start, Reports
LEMMA KeepsReports == Inv /\ Inv' /\ Reports /\ [Next]_s => Reports'
<1> SUFFICES ASSUME Inv, Inv', Reports, [Next]_s PROVE Reports' OBVIOUS
<1> USE Assumed
<1>0. /\ s.progress \in Seq(Nat) /\ s.heard \in Seq(Nat) /\ s.pos \in Nat /\ s.pos <= Total /\ s.total = Total
      /\ s.pc \in [Workers -> Places] /\ s.token \in BOOLEAN /\ s.returned \in BOOLEAN
      /\ s'.progress \in Seq(Nat) /\ s'.heard \in Seq(Nat) /\ s'.pos \in Nat /\ s'.total = Total
  BY DEF Inv, TypeOK
\* Steps that have nothing to do with reports.
<1>a. ASSUME s'.progress = s.progress, s'.heard = s.heard, s.pos <= s'.pos, s'.returned = s.returned,
             (s'.pos = Total /\ \A w \in Workers : s'.pc[w] = "done") => (s.pos = Total /\ \A w \in Workers : s.pc[w] = "done")
      PROVE Reports'
  <2>1. Percent(s) <= Percent(s')
    <3>1. 100 * s.pos \in Nat /\ 100 * s'.pos \in Nat /\ 100 * s.pos <= 100 * s'.pos BY <1>0, <1>a
    <3> QED BY <3>1, <1>0, DivMonotone DEF Percent
  <2>2. Percent(s) \in Nat /\ Percent(s') \in Nat BY <1>0, DivNat DEF Percent
  <2>3. \A i \in 1..Len(s.progress) : s.progress[i] \in Nat BY <1>0
  <2>4. \A i \in 1..Len(s'.progress) : s'.progress[i] <= Percent(s') BY <1>a, <2>1, <2>2, <2>3 DEF Reports
  <2> QED BY <1>a, <2>4 DEF Reports
<1>1. ASSUME NEW w \in Workers, AskReserve(w) PROVE Reports'
  <2>1. s' = [s EXCEPT !.pc[w] = "wantreserve"] BY <1>1 DEF AskReserve, WantReserve, Go
  <2>2. s'.pc[w] = "wantreserve" /\ s'.pos = s.pos /\ s'.progress = s.progress /\ s'.heard = s.heard /\ s'.returned = s.returned
    BY <2>1, <1>0 DEF Inv, TypeOK
  <2> QED BY <2>2, <1>a, <1>0
<1>2. ASSUME NEW w \in Workers, StartReserve(w) PROVE Reports'
  <2>2. s'.pc[w] = "reserving" /\ s'.pos = s.pos /\ s'.progress = s.progress /\ s'.heard = s.heard /\ s'.returned = s.returned
    BY <1>2, <1>0 DEF StartReserve, EnterReserve, Go, Inv, TypeOK
  <2> QED BY <2>2, <1>a, <1>0
<1>3. ASSUME NEW w \in Workers, EndReserve(w) PROVE Reports'
  <2> PICK n \in Nat : s' = Reserve(s, w, n) BY <1>3 DEF EndReserve
  <2>2. s'.pc[w] \in {"leaving", "idle"} /\ s'.pos = s.pos + n /\ s'.progress = s.progress /\ s'.heard = s.heard /\ s'.returned = s.returned
    BY <1>0 DEF Reserve, Inv, TypeOK
  <2> QED BY <2>2, <1>a, <1>0
<1>4. ASSUME NEW w \in Workers, Look(w) PROVE Reports'
  <2> PICK p \in Nat, cost \in 0..MaxCost : s' = Examine(s, w, p, cost) BY <1>4 DEF Look
  <2>2. s'.pc = s.pc /\ s'.pos = s.pos /\ s'.progress = s.progress /\ s'.heard = s.heard /\ s'.returned = s.returned
    BY <1>0 DEF Examine, Inv, TypeOK
  <2> QED BY <2>2, <1>a, <1>0
<1>5. ASSUME NEW w \in Workers, AskHandIn(w) PROVE Reports'
  <2> PICK last \in BOOLEAN : s' = WantHandIn(s, w, last) BY <1>5 DEF AskHandIn
  <2>2. s'.pc[w] = "wanthandin" /\ s'.pos = s.pos /\ s'.progress = s.progress /\ s'.heard = s.heard /\ s'.returned = s.returned
    BY <1>0 DEF WantHandIn, Go, Inv, TypeOK
  <2> QED BY <2>2, <1>a, <1>0
<1>6. ASSUME NEW w \in Workers, StartHandIn(w) PROVE Reports'
  <2>2. s'.pc[w] = "handingin" /\ s'.pos = s.pos /\ s'.progress = s.progress /\ s'.heard = s.heard /\ s'.returned = s.returned
    BY <1>6, <1>0 DEF StartHandIn, EnterHandIn, Go, Inv, TypeOK
  <2> QED BY <2>2, <1>a, <1>0
<1>7. ASSUME NEW w \in Workers, EndHandIn(w) PROVE Reports'
  <2> DEFINE percent == Percent(s) q == s.progress
  <2>1. /\ s'.progress = Append(q, percent) /\ s'.heard = s.heard /\ s'.pos = s.pos /\ s'.returned = s.returned
    BY <1>7, <1>0 DEF EndHandIn, HandIn, Inv, TypeOK
  <2>2. percent \in Nat BY <1>0, DivNat DEF Percent
  <2>3. Percent(s') = percent BY <2>1, <1>0 DEF Percent
  <2>4. /\ Len(s'.progress) = Len(q) + 1 /\ Len(q) \in Nat
        /\ \A i \in 1..Len(q) : s'.progress[i] = q[i] /\ q[i] \in Nat
        /\ s'.progress[Len(q) + 1] = percent
    BY <2>1, <2>2, <1>0
  <2>5. s.pos = Total => percent = 100 BY <1>0, DivSame DEF Percent
  <2>6. ~s.returned
    <3>1. s.pc[w] = "handingin" BY <1>7 DEF EndHandIn, CanHandIn, At
    <3> QED BY <3>1 DEF Inv, Duties
  <2> HIDE DEF percent
  <2>a. \A i \in 1..Len(s'.progress) : s'.progress[i] <= percent BY <2>2, <2>4 DEF Reports, percent
  <2>b. \A i, j \in 1..Len(s'.progress) : i <= j => s'.progress[i] <= s'.progress[j]
    <3> SUFFICES ASSUME NEW i \in 1..Len(s'.progress), NEW j \in 1..Len(s'.progress), i <= j PROVE s'.progress[i] <= s'.progress[j] OBVIOUS
    <3>1. CASE j = Len(q) + 1 BY <3>1, <2>a, <2>4
    <3>2. CASE j # Len(q) + 1
      <4>1. i \in 1..Len(q) /\ j \in 1..Len(q) BY <3>2, <2>4
      <4> QED BY <4>1, <2>4 DEF Reports
    <3> QED BY <3>1, <3>2
  <2>c. s'.pos = Total => Len(s'.progress) > 0 /\ s'.progress[Len(s'.progress)] = 100 BY <2>1, <2>4, <2>5
  <2>d. Len(s'.heard) <= Len(s'.progress) /\ \A i \in 1..Len(s'.heard) : s'.heard[i] = s'.progress[i]
    <3>1. Len(s.heard) \in Nat /\ Len(s.heard) <= Len(q) BY <1>0 DEF Reports
    <3>2. \A i \in 1..Len(s.heard) : s.heard[i] = q[i] /\ i \in 1..Len(q) BY <3>1, <2>4 DEF Reports
    <3> QED BY <3>1, <3>2, <2>1, <2>4
  <2> QED BY <2>a, <2>b, <2>c, <2>d, <2>3, <2>1, <2>6 DEF Reports
<1>8. ASSUME NEW w \in Workers, Ask(w) PROVE Reports'
  <2>2. s'.pc[w] \in {"leaving", "idle"} /\ s'.pos = s.pos /\ s'.progress = s.progress /\ s'.heard = s.heard /\ s'.returned = s.returned
    BY <1>8, <1>0 DEF Ask, Check, Go, Inv, TypeOK
  <2> QED BY <2>2, <1>a, <1>0
<1>9. CASE SetToken
  <2>2. s'.pc = s.pc /\ s'.pos = s.pos /\ s'.progress = s.progress /\ s'.heard = s.heard /\ s'.returned = s.returned
    BY <1>9, <1>0 DEF SetToken, Cancel, Inv, TypeOK
  <2> QED BY <2>2, <1>a, <1>0
<1>10. CASE HearOne
  <2> DEFINE h == s.heard q == s.progress
  <2>1. /\ s'.pc = s.pc /\ s'.pos = s.pos /\ s'.progress = q /\ s'.returned = s.returned /\ s'.total = s.total
        /\ s'.heard = Append(h, q[Len(h) + 1]) /\ Len(h) < Len(q)
    BY <1>10, <1>0 DEF HearOne, Hear, CanHear, Inv, TypeOK
  <2>2. Len(h) \in Nat /\ Len(q) \in Nat /\ q[Len(h) + 1] \in Nat BY <2>1, <1>0
  <2>3. Len(s'.heard) = Len(h) + 1 /\ s'.heard[Len(h) + 1] = q[Len(h) + 1] /\ \A i \in 1..Len(h) : s'.heard[i] = h[i] BY <2>1, <2>2, <1>0
  <2>4. \A i \in 1..Len(s'.heard) : s'.heard[i] = q[i]
    <3> SUFFICES ASSUME NEW i \in 1..Len(s'.heard) PROVE s'.heard[i] = q[i] OBVIOUS
    <3>1. CASE i = Len(h) + 1 BY <3>1, <2>3
    <3>2. CASE i # Len(h) + 1
      <4>1. i \in 1..Len(h) BY <3>2, <2>2, <2>3
      <4> QED BY <4>1, <2>3 DEF Reports
    <3> QED BY <3>1, <3>2
  <2>5. ~s.returned BY <2>1, <2>2 DEF Reports
  <2>6. Percent(s') = Percent(s) BY <2>1 DEF Percent
  <2>7. Len(s'.heard) <= Len(q) BY <2>1, <2>2, <2>3
  <2> QED BY <2>1, <2>4, <2>5, <2>6, <2>7 DEF Reports
<1>11. CASE Finish
  <2>1. s'.pc = s.pc /\ s'.pos = s.pos /\ s'.progress = s.progress /\ s'.heard = s.heard /\ s'.total = s.total /\ ~(Len(s.heard) < Len(s.progress))
    BY <1>11, <1>0 DEF Finish, CanReturn, CanHear, Return, Inv, TypeOK
  <2>2. Len(s.heard) = Len(s.progress) BY <2>1, <1>0 DEF Reports
  <2>3. Percent(s') = Percent(s) BY <2>1 DEF Percent
  <2> QED BY <2>1, <2>2, <2>3 DEF Reports
<1>12. CASE UNCHANGED s
  BY <1>12 DEF Reports, Percent
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12 DEF Next, Step

---------------------------------------------------------------------------
\* How much a worker still does when the token is set.
Most == Limit - 1 + MaxCost
Soon == \A w \in Workers :
  /\ s.evals[w] <= Most /\ s.late[w] <= Most
  /\ ~s.token => s.late[w] = 0
  /\ s.pc[w] \in {"idle", "wantreserve", "reserving"} => s.late[w] <= s.evals[w]

LEMMA BeginsSoon == Init => Soon
  BY Assumed DEF Init, Start, Soon, Most
LEMMA KeepsSoon == Inv /\ Soon /\ [Next]_s => Soon'
<1> SUFFICES ASSUME Inv, Soon, [Next]_s PROVE Soon' OBVIOUS
<1> USE Assumed
<1>0. /\ s.pc \in [Workers -> Places] /\ s.evals \in [Workers -> Nat] /\ s.late \in [Workers -> Nat] /\ s.token \in BOOLEAN
      /\ Most \in Nat
  BY DEF Inv, TypeOK, Most
\* Steps that examine nothing.
<1>a. ASSUME s'.evals = s.evals, s'.late = s.late, s'.token = s.token \/ s'.token,
             \A v \in Workers : s'.pc[v] \in {"idle", "wantreserve", "reserving"} => s.pc[v] \in {"idle", "wantreserve", "reserving"} \/ s.late[v] = 0
      PROVE Soon'
  BY <1>0, <1>a DEF Soon
<1>1. ASSUME NEW w \in Workers, AskReserve(w) PROVE Soon'
  <2>1. /\ s'.pc = [s.pc EXCEPT ![w] = "wantreserve"] /\ s.pc[w] = "idle"
        /\ s'.evals = s.evals /\ s'.late = s.late /\ s'.token = s.token
    BY <1>1 DEF AskReserve, CanWantReserve, WantReserve, Go, At, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>2. ASSUME NEW w \in Workers, StartReserve(w) PROVE Soon'
  <2>1. /\ s'.pc = [s.pc EXCEPT ![w] = "reserving"] /\ s.pc[w] = "wantreserve"
        /\ s'.evals = s.evals /\ s'.late = s.late /\ s'.token = s.token
    BY <1>2 DEF StartReserve, CanEnterReserve, EnterReserve, Go, At, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>3. ASSUME NEW w \in Workers, EndReserve(w) PROVE Soon'
  <2> PICK n \in Nat : CanReserve(s, w, n) /\ s' = Reserve(s, w, n) BY <1>3 DEF EndReserve
  <2>1. /\ s'.pc = [s.pc EXCEPT ![w] = IF n = 0 THEN "leaving" ELSE "idle"] /\ s.pc[w] = "reserving"
        /\ s'.evals = s.evals /\ s'.late = s.late /\ s'.token = s.token
    BY DEF CanReserve, Reserve, At, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>4. ASSUME NEW w \in Workers, Look(w) PROVE Soon'
  <2> PICK p \in Nat, cost \in 0..MaxCost : CanExamine(s, w, p, Limit) /\ s' = Examine(s, w, p, cost) BY <1>4 DEF Look
  <2>1. /\ s'.pc = s.pc /\ s'.token = s.token /\ s.pc[w] = "idle" /\ s.evals[w] < Limit
        /\ s'.evals = [s.evals EXCEPT ![w] = @ + cost]
        /\ s'.late = [s.late EXCEPT ![w] = IF s.token THEN @ + cost ELSE @]
    BY DEF CanExamine, Examine, At, Inv, TypeOK
  <2>2. s.evals[w] + cost <= Most BY <2>1, <1>0 DEF Most
  <2>3. s.late[w] <= s.evals[w] BY <2>1 DEF Soon
  <2>4. /\ s'.evals[w] = s.evals[w] + cost
        /\ s'.late[w] = IF s.token THEN s.late[w] + cost ELSE s.late[w]
        /\ \A v \in Workers \ {w} : s'.evals[v] = s.evals[v] /\ s'.late[v] = s.late[v] BY <2>1, <1>0
  <2>5. s.evals[w] \in Nat /\ s.late[w] \in Nat /\ cost \in Nat BY <1>0
  <2>6. ASSUME NEW v \in Workers PROVE /\ s'.evals[v] <= Most /\ s'.late[v] <= Most
                                       /\ ~s'.token => s'.late[v] = 0
                                       /\ s'.pc[v] \in {"idle", "wantreserve", "reserving"} => s'.late[v] <= s'.evals[v]
    <3>1. CASE v = w BY <3>1, <2>1, <2>2, <2>3, <2>4, <2>5, <1>0 DEF Soon
    <3>2. CASE v # w BY <3>2, <2>1, <2>4 DEF Soon
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>6 DEF Soon
<1>5. ASSUME NEW w \in Workers, AskHandIn(w) PROVE Soon'
  <2> PICK last \in BOOLEAN : s' = WantHandIn(s, w, last) BY <1>5 DEF AskHandIn
  <2>1. s'.pc = [s.pc EXCEPT ![w] = "wanthandin"] /\ s'.evals = s.evals /\ s'.late = s.late /\ s'.token = s.token
    BY DEF WantHandIn, Go, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>6. ASSUME NEW w \in Workers, StartHandIn(w) PROVE Soon'
  <2>1. s'.pc = [s.pc EXCEPT ![w] = "handingin"] /\ s'.evals = s.evals /\ s'.late = s.late /\ s'.token = s.token
    BY <1>6 DEF StartHandIn, EnterHandIn, Go, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>7. ASSUME NEW w \in Workers, EndHandIn(w) PROVE Soon'
  <2>1. /\ s'.pc = [s.pc EXCEPT ![w] = IF s.last[w] THEN "done" ELSE "check"]
        /\ s'.evals = [s.evals EXCEPT ![w] = 0] /\ s'.late = s.late /\ s'.token = s.token
    BY <1>7 DEF EndHandIn, HandIn, Inv, TypeOK
  <2> QED BY <2>1, <1>0 DEF Soon
<1>8. ASSUME NEW w \in Workers, Ask(w) PROVE Soon'
  <2>1. /\ s'.pc = [s.pc EXCEPT ![w] = IF s.token THEN "leaving" ELSE "idle"]
        /\ s'.evals = s.evals /\ s'.late = s.late /\ s'.token = s.token
    BY <1>8 DEF Ask, Check, Go, Inv, TypeOK
  <2>2. ~s.token => s.late[w] = 0 BY DEF Soon
  <2> QED BY <2>1, <2>2, <1>0, <1>a
<1>9. CASE SetToken
  <2>1. s'.pc = s.pc /\ s'.evals = s.evals /\ s'.late = s.late /\ s'.token BY <1>9 DEF SetToken, Cancel, Inv, TypeOK
  <2> QED BY <2>1, <1>0 DEF Soon
<1>10. CASE HearOne
  <2>1. s'.pc = s.pc /\ s'.evals = s.evals /\ s'.late = s.late /\ s'.token = s.token BY <1>10 DEF HearOne, Hear, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>11. CASE Finish
  <2>1. s'.pc = s.pc /\ s'.evals = s.evals /\ s'.late = s.late /\ s'.token = s.token BY <1>11 DEF Finish, Return, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>12. CASE UNCHANGED s
  BY <1>12 DEF Soon
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12 DEF Next, Step

---------------------------------------------------------------------------
\* A worker begins at most one portion when the token is set.
Once == \A w \in Workers :
  /\ s.more[w] <= 1
  /\ ~s.token => s.more[w] = 0
  /\ s.pc[w] \in {"idle", "wantreserve", "reserving"} => s.more[w] = 0 \/ s.mine[w] # {}

LEMMA BeginsOnce == Init => Once
  BY Assumed DEF Init, Start, Once
LEMMA KeepsOnce == Inv /\ Once /\ [Next]_s => Once'
<1> SUFFICES ASSUME Inv, Once, [Next]_s PROVE Once' OBVIOUS
<1> USE Assumed
<1>0. /\ s.pc \in [Workers -> Places] /\ s.mine \in [Workers -> SUBSET Nat] /\ s.more \in [Workers -> Nat] /\ s.token \in BOOLEAN
  BY DEF Inv, TypeOK
\* Steps that examine nothing.
<1>a. ASSUME s'.mine = s.mine, s'.more = s.more, s'.token = s.token \/ s'.token,
             \A v \in Workers : s'.pc[v] \in {"idle", "wantreserve", "reserving"} => s.pc[v] \in {"idle", "wantreserve", "reserving"} \/ s.more[v] = 0
      PROVE Once'
  BY <1>0, <1>a DEF Once
<1>1. ASSUME NEW w \in Workers, AskReserve(w) PROVE Once'
  <2>1. /\ s'.pc = [s.pc EXCEPT ![w] = "wantreserve"] /\ s.pc[w] = "idle"
        /\ s'.mine = s.mine /\ s'.more = s.more /\ s'.token = s.token
    BY <1>1 DEF AskReserve, CanWantReserve, WantReserve, Go, At, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>2. ASSUME NEW w \in Workers, StartReserve(w) PROVE Once'
  <2>1. /\ s'.pc = [s.pc EXCEPT ![w] = "reserving"] /\ s.pc[w] = "wantreserve"
        /\ s'.mine = s.mine /\ s'.more = s.more /\ s'.token = s.token
    BY <1>2 DEF StartReserve, CanEnterReserve, EnterReserve, Go, At, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>3. ASSUME NEW w \in Workers, EndReserve(w) PROVE Once'
  <2> PICK n \in Nat : CanReserve(s, w, n) /\ s' = Reserve(s, w, n) BY <1>3 DEF EndReserve
  <2>1. /\ s'.pc = [s.pc EXCEPT ![w] = IF n = 0 THEN "leaving" ELSE "idle"] /\ s.pc[w] = "reserving"
        /\ s'.mine = s.mine /\ s'.more = s.more /\ s'.token = s.token
    BY DEF CanReserve, Reserve, At, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>4. ASSUME NEW w \in Workers, Look(w) PROVE Once'
  <2> PICK p \in Nat, cost \in 0..MaxCost : CanExamine(s, w, p, Limit) /\ s' = Examine(s, w, p, cost) BY <1>4 DEF Look
  <2>1. /\ s'.pc = s.pc /\ s'.token = s.token /\ s.pc[w] = "idle"
        /\ s'.mine = [s.mine EXCEPT ![w] = @ \cup {p}]
        /\ s'.more = [s.more EXCEPT ![w] = IF s.token /\ s.mine[w] = {} THEN @ + 1 ELSE @]
    BY DEF CanExamine, Examine, At, Inv, TypeOK
  <2>2. s.more[w] = 0 \/ s.mine[w] # {} BY <2>1 DEF Once
  <2>3. /\ s'.mine[w] = s.mine[w] \cup {p} /\ s'.mine[w] # {}
        /\ s'.more[w] = IF s.token /\ s.mine[w] = {} THEN s.more[w] + 1 ELSE s.more[w]
        /\ \A v \in Workers \ {w} : s'.mine[v] = s.mine[v] /\ s'.more[v] = s.more[v] BY <2>1, <1>0
  <2>4. ASSUME NEW v \in Workers PROVE /\ s'.more[v] <= 1
                                       /\ ~s'.token => s'.more[v] = 0
                                       /\ s'.pc[v] \in {"idle", "wantreserve", "reserving"} => s'.more[v] = 0 \/ s'.mine[v] # {}
    <3>1. CASE v = w BY <3>1, <2>1, <2>2, <2>3, <1>0 DEF Once
    <3>2. CASE v # w BY <3>2, <2>1, <2>3 DEF Once
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>4 DEF Once
<1>5. ASSUME NEW w \in Workers, AskHandIn(w) PROVE Once'
  <2> PICK last \in BOOLEAN : s' = WantHandIn(s, w, last) BY <1>5 DEF AskHandIn
  <2>1. s'.pc = [s.pc EXCEPT ![w] = "wanthandin"] /\ s'.mine = s.mine /\ s'.more = s.more /\ s'.token = s.token
    BY DEF WantHandIn, Go, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>6. ASSUME NEW w \in Workers, StartHandIn(w) PROVE Once'
  <2>1. s'.pc = [s.pc EXCEPT ![w] = "handingin"] /\ s'.mine = s.mine /\ s'.more = s.more /\ s'.token = s.token
    BY <1>6 DEF StartHandIn, EnterHandIn, Go, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>7. ASSUME NEW w \in Workers, EndHandIn(w) PROVE Once'
  <2>1. /\ s'.pc = [s.pc EXCEPT ![w] = IF s.last[w] THEN "done" ELSE "check"]
        /\ s'.mine = [s.mine EXCEPT ![w] = {}] /\ s'.more = s.more /\ s'.token = s.token
    BY <1>7 DEF EndHandIn, HandIn, Inv, TypeOK
  <2> QED BY <2>1, <1>0 DEF Once
<1>8. ASSUME NEW w \in Workers, Ask(w) PROVE Once'
  <2>1. /\ s'.pc = [s.pc EXCEPT ![w] = IF s.token THEN "leaving" ELSE "idle"]
        /\ s'.mine = s.mine /\ s'.more = s.more /\ s'.token = s.token
    BY <1>8 DEF Ask, Check, Go, Inv, TypeOK
  <2>2. ~s.token => s.more[w] = 0 BY DEF Once
  <2> QED BY <2>1, <2>2, <1>0, <1>a
<1>9. CASE SetToken
  <2>1. s'.pc = s.pc /\ s'.mine = s.mine /\ s'.more = s.more /\ s'.token BY <1>9 DEF SetToken, Cancel, Inv, TypeOK
  <2> QED BY <2>1, <1>0 DEF Once
<1>10. CASE HearOne
  <2>1. s'.pc = s.pc /\ s'.mine = s.mine /\ s'.more = s.more /\ s'.token = s.token BY <1>10 DEF HearOne, Hear, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>11. CASE Finish
  <2>1. s'.pc = s.pc /\ s'.mine = s.mine /\ s'.more = s.more /\ s'.token = s.token BY <1>11 DEF Finish, Return, Inv, TypeOK
  <2> QED BY <2>1, <1>0, <1>a
<1>12. CASE UNCHANGED s
  BY <1>12 DEF Once
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12 DEF Next, Step

THEOREM Safe == Spec => [](Inv /\ Reports /\ Soon /\ Once)
  BY Begins, Keeps, BeginsReports, KeepsReports, BeginsSoon, KeepsSoon, BeginsOnce, KeepsOnce, PTL DEF Spec

\* What the invariants of EnumCore say follows.
THEOREM InvAccounted == Inv => Accounted(s) /\ Locked(s)
<1> SUFFICES ASSUME Inv PROVE Accounted(s) /\ Locked(s) OBVIOUS
<1> USE Assumed
<1>0. DOMAIN s.pc = Workers /\ s.pos \in Nat BY DEF Inv, TypeOK
<1>1. Locked(s) BY <1>0 DEF Inv, Locks, Locked, At
<1>2. Examined(s) \cup UNION { s.todo[w] : w \in Workers } = Taken(s)
  <2>1. ASSUME NEW p \in Examined(s) \cup UNION { s.todo[w] : w \in Workers } PROVE p \in Taken(s)
    <3>1. p \in s.counted \/ (\E w \in Workers : p \in s.mine[w]) \/ (\E w \in Workers : p \in s.todo[w]) BY <1>0, <2>1 DEF Examined
    <3> QED BY <3>1 DEF Taken, Inv, Where
  <2>2. ASSUME NEW p \in Taken(s) PROVE p \in Examined(s) \cup UNION { s.todo[w] : w \in Workers }
    <3>1. p \in s.counted \/ \E w \in Workers : p \in s.todo[w] \/ p \in s.mine[w] BY <2>2 DEF Taken, Inv, Where
    <3> QED BY <3>1, <1>0 DEF Examined
  <2> QED BY <2>1, <2>2
<1>3. \A w \in Workers : s.todo[w] \cap Examined(s) = {} /\ s.mine[w] \cap s.counted = {}
  <2> SUFFICES ASSUME NEW w \in Workers PROVE s.todo[w] \cap Examined(s) = {} /\ s.mine[w] \cap s.counted = {} OBVIOUS
  <2>1. s.mine[w] \cap s.counted = {} /\ s.todo[w] \cap s.counted = {} BY DEF Inv, Apart
  <2>2. \A v \in Workers : s.todo[w] \cap s.mine[v] = {} BY DEF Inv, Apart
  <2> QED BY <2>1, <2>2, <1>0 DEF Examined
<1>4. (\A v, w \in Workers : v # w => s.todo[v] \cap s.todo[w] = {} /\ s.mine[v] \cap s.mine[w] = {}) /\ ~s.twice BY DEF Inv, Apart
<1> QED BY <1>0, <1>1, <1>2, <1>3, <1>4 DEF Accounted
THEOREM InvComplete == Inv /\ s.returned /\ Workers # {} => Complete(s)
<1> SUFFICES ASSUME Inv, s.returned, Workers # {} PROVE Complete(s) OBVIOUS
<1> USE Assumed
<1>0. DOMAIN s.pc = Workers /\ s.pos \in Nat /\ s.total = Total BY DEF Inv, TypeOK
<1>1. \A w \in Workers : s.pc[w] = "done" /\ s.mine[w] = {} BY DEF Inv, Duties
<1>2. \A w \in Workers : s.token \/ (s.todo[w] = {} /\ s.pos = Total) BY <1>1 DEF Inv, Duties, Leaving
<1>3. s.token \/ (s.pos = Total /\ \A w \in Workers : s.todo[w] = {}) BY <1>2
<1>4. s.token \/ s.counted = 0..(Total - 1)
  <2>1. CASE s.token BY <2>1
  <2>2. CASE s.pos = Total /\ \A w \in Workers : s.todo[w] = {}
    <3>1. s.counted \subseteq 0..(Total - 1) BY <2>2 DEF Inv, Where
    <3>2. \A p \in 0..(Total - 1) : p \in s.counted BY <2>2, <1>1 DEF Inv, Where
    <3> QED BY <3>1, <3>2
  <2> QED BY <1>3, <2>1, <2>2
<1> QED BY <1>0, <1>1, <1>4 DEF Complete
THEOREM InvReported == Inv /\ Reports /\ s.returned => Reported(s)
<1> SUFFICES ASSUME Inv, Reports, s.returned PROVE Reported(s) OBVIOUS
<1> USE Assumed
<1>0. s.progress \in Seq(Nat) /\ s.heard \in Seq(Nat) /\ s.pos \in Nat /\ s.pos <= Total /\ s.total = Total BY DEF Inv, TypeOK
<1>1. s.heard = s.progress BY <1>0 DEF Reports
<1>2. Percent(s) <= 100 /\ Percent(s) \in Nat
  <2>1. 100 * s.pos <= 100 * Total /\ 100 * s.pos \in Nat /\ 100 * Total \in Nat BY <1>0
  <2> QED BY <2>1, <1>0, DivMonotone, DivSame, DivNat DEF Percent
<1>3. \A i \in 1..Len(s.progress) : s.progress[i] \in Nat /\ s.progress[i] <= Percent(s) BY <1>0 DEF Reports
<1>4. \A i \in DOMAIN s.progress : s.progress[i] \in 0..100 BY <1>0, <1>2, <1>3
<1>5. Monotone(s.progress) BY <1>0 DEF Reports, Monotone
<1>6. s.pos = Total => s.progress[Len(s.progress)] = 100 BY <1>0 DEF Inv, Duties, Reports
<1> QED BY <1>0, <1>1, <1>4, <1>5, <1>6 DEF Reported, ProgressOK
THEOREM InvSoon == Soon => \A w \in Workers : s.late[w] <= Limit - 1 + MaxCost
  BY DEF Soon, Most
THEOREM InvOnce == Inv /\ Once => OneMore(s)
  BY DEF Inv, TypeOK, Once, OneMore
================================================================================
