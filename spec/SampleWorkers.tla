------------------------------ MODULE SampleWorkers ------------------------------
(***************************************************************************)
(* Every interleaving of a few workers that sample, with every sequence of *)
(* means, until the deviation is below Target.  handed is what was really  *)
(* handed in; good says that the workers were told to stop with reason.    *)
(***************************************************************************)
EXTENDS SampleCore
CONSTANTS Workers, Means, Target, Least, MayCancel, MaxPortions
VARIABLES s, handed, good
vars == <<s, handed, good>>
Init == s = Start(Workers) /\ handed = <<>> /\ good = TRUE
Step(w) ==
  \/ /\ CanSample(s, w)
     \* (the bound is the model's; a worker that is to stop needs one more portion to find out)
     /\ s.stopped \/ s.token \/ s.n + Cardinality({ v \in Workers : s.mine[v][1] > 0 }) < MaxPortions
     /\ \E m \in Means : s' = Sample(s, w, 1, m) /\ UNCHANGED <<handed, good>>
  \/ \E last \in BOOLEAN : CanEnter(s, w, last) /\ s' = Enter(s, w) /\ UNCHANGED <<handed, good>>
  \/ /\ CanHandIn(s, w)
     /\ LET t == Added(s, w)
            stop == At(s, w, "handingin") /\ t.n >= Least /\ Precise(t, Target)
        IN /\ s' = HandIn(s, w, stop)
           /\ good' = (good /\ (s'.stopped => s.stopped \/ (t.n >= Least /\ Precise(t, Target))))
           /\ handed' = IF s.mine[w][1] > 0 THEN Append(handed, s.mine[w][2]) ELSE handed
  \/ CanCheck(s, w) /\ s' = Check(s, w) /\ UNCHANGED <<handed, good>>
Next == \/ \E w \in Workers : Step(w)
        \/ MayCancel /\ ~s.token /\ s' = Cancel(s) /\ UNCHANGED <<handed, good>>
        \/ CanReturn(s) /\ s' = Return(s) /\ UNCHANGED <<handed, good>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN <<>> ELSE BAdd(SumTo(f, i - 1), f[i])
\* The estimate is that of the portions handed in, whoever did and whenever.
Estimate ==
  /\ s.n = Len(handed) /\ s.evals = s.n
  /\ s.sum = SumTo([i \in DOMAIN handed |-> BNat(handed[i])], s.n)
  /\ s.sum2 = SumTo([i \in DOMAIN handed |-> Sq(BNat(handed[i]))], s.n)
Reason == good
\* Nobody stops by themselves; when the call returns nothing is left over.
Ends == (\A w \in Workers : At(s, w, "leaving") \/ At(s, w, "done") => s.stopped \/ s.token)
        /\ (s.returned => \A w \in Workers : s.mine[w][1] = 0 /\ (s.stopped \/ s.token))
\* A worker that is told to stop, or cancelled, hands in at most the portion it was at, or begins one at most.
Soon == \A w \in Workers : s.since[w] <= 1 /\ s.more[w] <= 1
\* With one worker what is returned is as precise as asked for.
Alone == Cardinality(Workers) = 1 /\ s.returned /\ ~s.token => Precise(s, Target)
\* Once stopped, all end.
AllEnd == s.stopped ~> s.returned
==================================================================================
