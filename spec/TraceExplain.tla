---------------------------- MODULE TraceExplain ----------------------------
(* C06: recorded results of applying text diffs must be explainable by some  *)
(* legal application, whatever the placement policy.                         *)
EXTENDS Explain, TLC, Json, IOUtils
VARIABLES i, pc
vars == <<i, pc, e>>

Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
Out == R.runs[Len(R.runs)].out
Clumps == Dir(R.cl, R.rev)

Init == i \in 1..Len(Recs) /\ pc = "run" /\ e = EStart
Step == pc = "run" /\ EStep(R.p, Out, Clumps) /\ UNCHANGED <<i, pc>>
Accept == /\ pc = "run" /\ Explained(R.p, Out, Clumps)
          /\ PrintT(<<"ACC", i>>) /\ pc' = "end" /\ UNCHANGED <<i, e>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
