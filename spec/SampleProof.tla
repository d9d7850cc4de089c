------------------------------- MODULE SampleProof -------------------------------
(***************************************************************************)
(* What TLC checks in SampleWorkers with a few workers and portions,       *)
(* proved (tlapm) for any number of workers, any portions of any size, and *)
(* whatever the precision asked for:                                       *)
(*   nobody stops by themselves, and when the call returns nothing that    *)
(*   was sampled is left over                                 Ends         *)
(*   a worker that is told to stop, or cancelled, hands in at most the     *)
(*   portion it was at, or begins one at most                 Soon         *)
(*   the results are changed by one worker at a time          OneAtATime   *)
(***************************************************************************)
EXTENDS SampleCore, TLAPS
CONSTANTS Workers, Target, Least
ASSUME Assumed == Workers \subseteq Nat \ {Nobody}
VARIABLE s

Places == {"sampling", "handingin", "handinginlast", "check", "leaving", "done"}

Init == s = Start(Workers)
Draw(w) == CanSample(s, w) /\ \E size \in Nat \ {0}, m \in Nat : s' = Sample(s, w, size, m)
Lock(w) == \E last \in BOOLEAN : CanEnter(s, w, last) /\ s' = Enter(s, w)
Merge(w) == /\ CanHandIn(s, w)
            /\ s' = HandIn(s, w, At(s, w, "handingin") /\ Added(s, w).n >= Least /\ Precise(Added(s, w), Target))
Ask(w) == CanCheck(s, w) /\ s' = Check(s, w)
SetToken == s' = Cancel(s)
Finish == CanReturn(s) /\ s' = Return(s)
Next == (\E w \in Workers : Draw(w) \/ Lock(w) \/ Merge(w) \/ Ask(w)) \/ SetToken \/ Finish
Spec == Init /\ [][Next]_s

Names == {"n", "sum", "sum2", "evals", "size", "rlock", "stopped", "token", "pc", "mine", "since", "more", "returned"}
TypeOK ==
  /\ s = [n |-> s.n, sum |-> s.sum, sum2 |-> s.sum2, evals |-> s.evals, size |-> s.size, rlock |-> s.rlock, stopped |-> s.stopped,
          token |-> s.token, pc |-> s.pc, mine |-> s.mine, since |-> s.since, more |-> s.more, returned |-> s.returned]
  /\ s.rlock \in Nat /\ s.stopped \in BOOLEAN /\ s.token \in BOOLEAN /\ s.returned \in BOOLEAN
  /\ s.pc \in [Workers -> Places] /\ s.mine \in [Workers -> Nat \X Nat] /\ s.since \in [Workers -> Nat] /\ s.more \in [Workers -> Nat]

Holder == \A w \in Workers : (s.pc[w] \in {"handingin", "handinginlast"}) <=> s.rlock = w
Empty == \A w \in Workers : s.pc[w] \in {"check", "leaving", "handinginlast", "done"} => s.mine[w][1] = 0
Told == \A w \in Workers : s.pc[w] \in {"leaving", "handinginlast", "done"} => s.stopped \/ s.token
Since == \A w \in Workers : /\ s.since[w] <= 1
                            /\ s.since[w] = 1 => s.stopped /\ s.pc[w] \in {"check", "leaving", "handinginlast", "done"}
More == \A w \in Workers : /\ s.more[w] <= 1
                           /\ s.more[w] = 1 => /\ s.stopped \/ s.token
                                               /\ s.pc[w] = "sampling" => s.mine[w][1] > 0
Over == s.returned => \A w \in Workers : s.pc[w] = "done"
Inv == TypeOK /\ Holder /\ Empty /\ Told /\ Since /\ More /\ Over

Ends == /\ \A w \in Workers : At(s, w, "leaving") \/ At(s, w, "done") => s.stopped \/ s.token
        /\ s.returned => \A w \in Workers : s.mine[w][1] = 0 /\ (s.stopped \/ s.token)
Soon == \A w \in Workers : s.since[w] <= 1 /\ s.more[w] <= 1
OneAtATime == \A v, w \in Workers : s.pc[v] \in {"handingin", "handinginlast"} /\ s.pc[w] \in {"handingin", "handinginlast"} => v = w

LEMMA First == Init => Inv
  BY Assumed DEF Init, Start, Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places, Nobody

LEMMA Drawing == ASSUME Inv, NEW w \in Workers, Draw(w) PROVE Inv'
<1>1. PICK size \in Nat \ {0}, m \in Nat : s' = Sample(s, w, size, m) BY DEF Draw
<1>2. /\ s'.rlock = s.rlock /\ s'.stopped = s.stopped /\ s'.token = s.token /\ s'.returned = s.returned /\ s'.pc = s.pc /\ s'.since = s.since
      /\ s'.mine = [s.mine EXCEPT ![w] = <<size, m>>]
      /\ s'.more = [s.more EXCEPT ![w] = IF s.stopped \/ s.token THEN @ + 1 ELSE @]
      /\ s' = [n |-> s'.n, sum |-> s'.sum, sum2 |-> s'.sum2, evals |-> s'.evals, size |-> s'.size, rlock |-> s'.rlock, stopped |-> s'.stopped,
          token |-> s'.token, pc |-> s'.pc, mine |-> s'.mine, since |-> s'.since, more |-> s'.more, returned |-> s'.returned]
  BY <1>1 DEF Inv, TypeOK, Sample
<1>3. s.pc[w] = "sampling" /\ s.mine[w][1] = 0 BY DEF Draw, CanSample, At
<1>4. s.more[w] = 0 BY <1>3 DEF Inv, More, TypeOK
<1>11. TypeOK' BY ONLY <1>2, <1>3, <1>4, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>12. Holder' BY ONLY <1>2, <1>3, <1>4, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>13. Empty' BY ONLY <1>2, <1>3, <1>4, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>14. Told' BY ONLY <1>2, <1>3, <1>4, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>15. Since' BY ONLY <1>2, <1>3, <1>4, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>16. More' BY ONLY <1>2, <1>3, <1>4, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>17. Over' BY ONLY <1>2, <1>3, <1>4, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1> QED BY <1>11, <1>12, <1>13, <1>14, <1>15, <1>16, <1>17 DEF Inv

LEMMA Locking == ASSUME Inv, NEW w \in Workers, Lock(w) PROVE Inv'
<1>1. PICK last \in BOOLEAN : CanEnter(s, w, last) /\ s' = Enter(s, w) BY DEF Lock
<1>2. s.rlock = 0 /\ s.pc[w] \in {"leaving", "sampling"} BY <1>1 DEF CanEnter, At, Nobody
<1>2a. w \in Nat /\ w # 0 /\ \A v \in Workers : v # 0 /\ v \in Nat BY Assumed DEF Nobody
<1>3. /\ s'.rlock = w /\ s'.stopped = s.stopped /\ s'.token = s.token /\ s'.returned = s.returned /\ s'.since = s.since /\ s'.mine = s.mine
      /\ s'.more = s.more
      /\ s'.pc = [s.pc EXCEPT ![w] = IF s.pc[w] = "leaving" THEN "handinginlast" ELSE "handingin"]
      /\ s' = [n |-> s'.n, sum |-> s'.sum, sum2 |-> s'.sum2, evals |-> s'.evals, size |-> s'.size, rlock |-> s'.rlock, stopped |-> s'.stopped,
          token |-> s'.token, pc |-> s'.pc, mine |-> s'.mine, since |-> s'.since, more |-> s'.more, returned |-> s'.returned]
  BY <1>1 DEF Inv, TypeOK, Enter, Go, At
<1>3a. ~s.returned BY <1>2 DEF Inv, Over
<1>11. TypeOK' BY ONLY <1>2, <1>2a, <1>3, <1>3a, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>12. Holder' BY ONLY <1>2, <1>2a, <1>3, <1>3a, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>13. Empty' BY ONLY <1>2, <1>2a, <1>3, <1>3a, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>14. Told' BY ONLY <1>2, <1>2a, <1>3, <1>3a, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>15. Since' BY ONLY <1>2, <1>2a, <1>3, <1>3a, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>16. More' BY ONLY <1>2, <1>2a, <1>3, <1>3a, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1>17. Over' BY ONLY <1>2, <1>2a, <1>3, <1>3a, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places
<1> QED BY <1>11, <1>12, <1>13, <1>14, <1>15, <1>16, <1>17 DEF Inv

LEMMA Merging == ASSUME Inv, NEW w \in Workers, Merge(w) PROVE Inv'
<1> DEFINE stop == At(s, w, "handingin") /\ Added(s, w).n >= Least /\ Precise(Added(s, w), Target)
<1>1. s' = HandIn(s, w, stop) /\ s.rlock = w /\ s.pc[w] \in {"handingin", "handinginlast"} BY DEF Merge, CanHandIn, At
<1>2. stop \in BOOLEAN OBVIOUS
<1>2a. w \in Nat /\ w # 0 /\ \A v \in Workers : v # 0 BY Assumed DEF Nobody
<1> HIDE DEF stop
<1>3. /\ s'.rlock = 0 /\ s'.stopped = (s.stopped \/ stop) /\ s'.token = s.token /\ s'.returned = s.returned /\ s'.more = s.more
      /\ s'.mine = [s.mine EXCEPT ![w] = <<0, 0>>]
      /\ s'.since = [s.since EXCEPT ![w] = IF s.mine[w][1] = 0 THEN @ ELSE IF s.stopped THEN @ + 1 ELSE @]
      /\ s'.pc = [s.pc EXCEPT ![w] = IF s.pc[w] = "handinginlast" THEN "done" ELSE "check"]
      /\ s' = [n |-> s'.n, sum |-> s'.sum, sum2 |-> s'.sum2, evals |-> s'.evals, size |-> s'.size, rlock |-> s'.rlock, stopped |-> s'.stopped,
          token |-> s'.token, pc |-> s'.pc, mine |-> s'.mine, since |-> s'.since, more |-> s'.more, returned |-> s'.returned]
  <2>0. TypeOK BY DEF Inv
  <2>1. CASE s.mine[w][1] = 0
    <3>1. Added(s, w) = s BY <2>1 DEF Added
    <3> QED BY ONLY <1>1, <2>0, <2>1, <3>1, w \in Workers DEF TypeOK, HandIn, At, Nobody
  <2>2. CASE s.mine[w][1] # 0
    <3>1. Added(s, w) = [s EXCEPT !.n = @ + 1, !.sum = BAdd(@, BNat(s.mine[w][2])), !.sum2 = BAdd(@, Sq(BNat(s.mine[w][2]))),
                                  !.evals = @ + s.mine[w][1], !.size = IF @ = 0 THEN s.mine[w][1] ELSE @, !.since[w] = IF s.stopped THEN @ + 1 ELSE @]
      BY <2>2 DEF Added
    <3>2. PICK n, a, b, e, z : Added(s, w) = [s EXCEPT !.n = n, !.sum = a, !.sum2 = b, !.evals = e, !.size = z, !.since[w] = IF s.stopped THEN @ + 1 ELSE @]
      BY <3>1, <2>0 DEF TypeOK
    <3> QED BY ONLY <1>1, <2>0, <2>2, <3>2, w \in Workers DEF TypeOK, HandIn, At, Nobody
  <2> QED BY <2>1, <2>2
<1>4. s.since[w] = 0 \/ s.mine[w][1] = 0 BY <1>1 DEF Inv, Since, TypeOK, Empty
<1>5. ~s.returned BY <1>1 DEF Inv, Over
<1> QED BY ONLY <1>1, <1>2, <1>2a, <1>3, <1>4, <1>5, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places

LEMMA Asking == ASSUME Inv, NEW w \in Workers, Ask(w) PROVE Inv'
<1>1. s' = Check(s, w) /\ s.pc[w] = "check" BY DEF Ask, CanCheck, At
<1>2. /\ s'.rlock = s.rlock /\ s'.stopped = s.stopped /\ s'.token = s.token /\ s'.returned = s.returned /\ s'.since = s.since /\ s'.mine = s.mine
      /\ s'.more = s.more
      /\ s'.pc = [s.pc EXCEPT ![w] = IF s.stopped \/ s.token THEN "leaving" ELSE "sampling"]
      /\ s' = [n |-> s'.n, sum |-> s'.sum, sum2 |-> s'.sum2, evals |-> s'.evals, size |-> s'.size, rlock |-> s'.rlock, stopped |-> s'.stopped,
          token |-> s'.token, pc |-> s'.pc, mine |-> s'.mine, since |-> s'.since, more |-> s'.more, returned |-> s'.returned]
  BY <1>1 DEF Inv, TypeOK, Check, Go, At
<1>3. ~s.returned BY <1>1 DEF Inv, Over
<1> QED BY ONLY <1>1, <1>2, <1>3, Inv DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places

LEMMA Cancelling == ASSUME Inv, SetToken PROVE Inv'
  BY DEF SetToken, Cancel, Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places

LEMMA Finishing == ASSUME Inv, Finish PROVE Inv'
  BY DEF Finish, CanReturn, Return, At, Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Places

LEMMA Idle == ASSUME Inv, UNCHANGED s PROVE Inv'
  BY DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over

THEOREM Always == Spec => []Inv
<1>1. Inv /\ [Next]_s => Inv' BY Drawing, Locking, Merging, Asking, Cancelling, Finishing, Idle DEF Next
<1> QED BY First, <1>1, PTL DEF Spec

THEOREM Properties == Inv => Ends /\ Soon /\ OneAtATime
  BY DEF Inv, TypeOK, Holder, Empty, Told, Since, More, Over, Ends, Soon, OneAtATime, At
==================================================================================
