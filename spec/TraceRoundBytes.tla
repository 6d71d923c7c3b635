------------------------------ MODULE TraceRoundBytes ------------------------------
(* C05: the recorded clumps of a diff, applied step by step to the file it   *)
(* was made from, and in reverse to the other (dir 2): every step has to be  *)
(* Apply, the result the other file, and *)
(* the implementation has to have produced just that.                        *)
EXTENDS ApplyBytes, TLC, Json, IOUtils
VARIABLES i, dir, pc
vars == <<i, dir, pc, s>>

Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
File == IF dir = 1 THEN R.b ELSE R.a
Other == IF dir = 1 THEN R.a ELSE R.b
Clumps == Dir(R.cl, dir = 2)
Out == IF dir = 1 THEN R.fout ELSE R.rout
St == IF dir = 1 THEN R.fst ELSE R.rst

Init == i \in 1..Len(Recs) /\ dir = 1 /\ pc = "run" /\ s = Start

Step == /\ pc = "run" /\ s.k < Len(Clumps)
        /\ LET x == Clumps[s.k + 1] IN
           /\ Match(File, x.bs, x.b) = TRUE /\ x.bs >= s.pos
           /\ Apply(File, x, "E")
        /\ UNCHANGED <<i, dir, pc>>

Finish == /\ pc = "run" /\ s.k = Len(Clumps)
          /\ Result(File) = Other
          /\ Out = Other
          /\ St = <<Len(Clumps), 0, 0, 0, 0>>
          /\ (Clumps = <<>>) <=> (R.b = R.a)
          /\ IF dir = 1 THEN dir' = 2 /\ s' = Start /\ pc' = pc
             ELSE pc' = "accept" /\ UNCHANGED <<dir, s>>
          /\ UNCHANGED i

Accept == pc = "accept" /\ PrintT(<<"ACC", i>>) /\ pc' = "end" /\ UNCHANGED <<i, dir, s>>
Next == Step \/ Finish \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
