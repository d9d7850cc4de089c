---------------------------------- MODULE Judge ----------------------------------
(***************************************************************************)
(* Walks the recorded cases of a trace file in parallel chunks.  A module  *)
(* that judges cases extends this one and defines Accepted, an invariant   *)
(* over case number at.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANT Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Trace)
VARIABLE at
First(k) == 1 + ((k - 1) * N) \div Chunks
JudgeInit == at \in { First(k) : k \in 1..Chunks }
\* Each chunk ends where the next begins.
JudgeNext == at < N /\ (\A k \in 2..Chunks : First(k) # at + 1) /\ at' = at + 1
JudgeSpec == JudgeInit /\ [][JudgeNext]_at
==================================================================================
