------------------------------ MODULE TraceBytes ------------------------------
(* C10: recorded applications of byte diffs, replayed; as TraceText.         *)
EXTENDS ApplyBytes, TLC, Json, IOUtils
VARIABLES i, j, pc
vars == <<i, j, pc, s>>

Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
Run == R.runs[j]
Clumps == Dir(SubSeq(R.cl, 1, Run.n), R.rev)

Init == i \in 1..Len(Recs) /\ j = 1 /\ pc = "clumps" /\ s = Start

Step == pc = "clumps" /\ ClumpStep(R.p, Clumps) /\ UNCHANGED <<i, j, pc>>

NextRun == /\ pc = "clumps" /\ s.k = Len(Clumps)
           /\ Result(R.p) = Run.out /\ s.st = Run.st
           /\ IF j < Len(R.runs) THEN j' = j + 1 /\ s' = Start /\ pc' = pc
              ELSE pc' = "query" /\ UNCHANGED <<j, s>>
           /\ UNCHANGED i

Query == /\ pc = "query" /\ R.aa = AlreadyApplied(R.p, Dir(R.cl, R.rev))
         /\ PrintT(<<"ACC", i, SubSeq(s.kinds, 1, MinOf(Len(s.kinds), 40))>>)
         /\ pc' = "end" /\ UNCHANGED <<i, j, s>>

Next == Step \/ NextRun \/ Query
Spec == Init /\ [][Next]_vars
=============================================================================
