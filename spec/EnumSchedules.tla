------------------------------ MODULE EnumSchedules ------------------------------
(***************************************************************************)
(* Random schedules of EnumWorkers, printed when the call returns, for     *)
(* replay on real threads.  A worker may start to take a lock that another *)
(* one holds ("try"); it then gets it as soon as it is free.               *)
(***************************************************************************)
EXTENDS EnumWorkers, Json
VARIABLES hist, tried
Did(what, w) == hist' = Append(hist, <<what, w>>)
Waits(w) == tried = w
Keep == UNCHANGED tried
\* One worker at a time, so that who gets the lock is determined.
Try(w) == /\ \/ At(s, w, "wantreserve") /\ s.plock \notin {Nobody, w}
             \/ At(s, w, "wanthandin") /\ s.rlock \notin {Nobody, w}
          /\ tried = 0 /\ tried' = w
          /\ Did("try", w) /\ UNCHANGED vars
Started(w) == tried' = IF tried = w THEN 0 ELSE tried
\* The one that waits gets the lock when it is released.
Forced == tried # 0 /\ (CanEnterReserve(s, tried) \/ CanEnterHandIn(s, tried))
SInit == Init /\ hist = <<>> /\ tried = 0
SNext ==
  \/ Forced /\ (StartReserve(tried) \/ StartHandIn(tried)) /\ tried' = 0
            /\ Did(IF At(s, tried, "wantreserve") THEN "startreserve" ELSE "starthandin", tried)
  \/ ~Forced /\ \E w \in Workers :
       \/ AskReserve2(w) /\ Did("wantreserve", w) /\ Keep
       \/ StartReserve(w) /\ Did("startreserve", w) /\ Started(w)
       \/ EndReserve(w) /\ Did("endreserve", w) /\ Keep
       \/ Look(w) /\ UNCHANGED hist /\ Keep
       \/ AskHandIn(w) /\ Did("wanthandin", w) /\ Keep
       \/ StartHandIn(w) /\ Did("starthandin", w) /\ Started(w)
       \/ EndHandIn(w) /\ Did("endhandin", w) /\ Keep
       \/ Ask(w) /\ UNCHANGED hist /\ Keep
       \/ Try(w)
  \/ ~Forced /\ SetToken /\ Did("token", 0) /\ Keep
  \/ Caller /\ UNCHANGED hist /\ Keep
SSpec == SInit /\ [][SNext]_<<vars, hist, tried>>
Emit == s.returned => PrintT("SC " \o ToJson([total |-> Total, batch |-> Batch, workers |-> Cardinality(Workers), token |-> s.token,
                                              counted |-> Cardinality(s.counted), steps |-> hist]))
===================================================================================
