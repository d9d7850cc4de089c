------------------------------- MODULE EnumWorkers -------------------------------
(***************************************************************************)
(* The exact calculation as workers in any interleaving, and a caller who  *)
(* may set the cancel token at any moment.                                 *)
(*   Batch  the most combinations taken up at once                         *)
(*   Limit  the cost at which a worker hands in                            *)
(*   Patience  the number of combinations, dealt or not, at which it does  *)
(*   Costs  what a combination may cost (0: its hands share a card)        *)
(* The code takes exactly Batch while there are as many, examines in order *)
(* and hands in at Limit or Patience; the model allows any such policy.    *)
(***************************************************************************)
EXTENDS EnumCore, TLC
CONSTANTS Workers, Total, Batch, Limit, Patience, Costs, MayCancel, Exactly
VARIABLES s, cost
vars == <<s, cost>>

Init == /\ cost \in [0..(Total - 1) -> Costs]
        /\ s = Start(Workers, Total)
Same == UNCHANGED cost

Sizes == LET left == s.total - s.pos
             most == IF Batch < left THEN Batch ELSE left
         IN IF Exactly \/ left = 0 THEN {most} ELSE 1..most
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Choice(S) == IF Exactly /\ S # {} THEN {First(S)} ELSE S

AskReserve(w) == CanWantReserve(s, w) /\ s' = WantReserve(s, w) /\ Same
StartReserve(w) == CanEnterReserve(s, w) /\ s' = EnterReserve(s, w) /\ Same
EndReserve(w) == \E n \in Sizes : CanReserve(s, w, n) /\ s' = Reserve(s, w, n) /\ Same
Patient(w) == Cardinality(s.mine[w]) < Patience
Look(w) == \E p \in Choice(s.todo[w]) : Patient(w) /\ CanExamine(s, w, p, Limit) /\ s' = Examine(s, w, p, cost[p]) /\ Same
AskHandIn(w) == \E last \in BOOLEAN : /\ CanWantHandIn(s, w, last)
                                      /\ (Exactly /\ ~last => s.evals[w] >= Limit \/ ~Patient(w))
                                      /\ s' = WantHandIn(s, w, last) /\ Same
StartHandIn(w) == CanEnterHandIn(s, w) /\ s' = EnterHandIn(s, w) /\ Same
EndHandIn(w) == CanHandIn(s, w) /\ s' = HandIn(s, w, Percent(s)) /\ Same
Ask(w) == CanCheck(s, w) /\ s' = Check(s, w) /\ Same
SetToken == MayCancel /\ ~s.token /\ ~s.returned /\ s' = Cancel(s) /\ Same
Caller == (CanHear(s) /\ s' = Hear(s) /\ Same) \/ (CanReturn(s) /\ s' = Return(s) /\ Same)

\* In the code a worker that has reached the limit hands in before it takes up more.
AskReserve2(w) == s.evals[w] < Limit /\ Patient(w) /\ AskReserve(w)
Step(w) == AskReserve2(w) \/ StartReserve(w) \/ EndReserve(w) \/ Look(w) \/ AskHandIn(w) \/ StartHandIn(w) \/ EndHandIn(w) \/ Ask(w)
Next == (\E w \in Workers : Step(w)) \/ SetToken \/ Caller
Spec == Init /\ [][Next]_vars /\ WF_vars(Caller) /\ \A w \in Workers : WF_vars(Step(w))

TypeOK == s.pos \in 0..Total
AccountedOK == Accounted(s)
LockedOK == Locked(s)
ProgressFine == ProgressOK(s)
ReturnFine == ReturnOK(s)
\* Since the token was set a worker has done at most what was left to the limit, and one combination,
\* and has begun at most one portion, which is bounded also if hardly anything can be dealt.
MaxCost == CHOOSE c \in Costs : \A d \in Costs : d <= c
SoonOK == OneMore(s) /\ \A w \in Workers : s.late[w] <= Limit - 1 + MaxCost /\ Cardinality(s.mine[w]) <= Patience
\* Nobody is stuck before the call has returned.
NoDeadlock == s.returned \/ ENABLED Next
Ends == <>(s.returned)
Symmetric == Permutations(Workers)

\* The calculation as its caller sees it.
Abstract == INSTANCE Calculation WITH all <- 0..(Total - 1), counted <- s.counted, token <- s.token, returned <- s.returned
Refines == Abstract!Spec
===================================================================================
