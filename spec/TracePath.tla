------------------------------ MODULE TracePath ------------------------------
(* C20: recorded answers for a line cs (character codes): before and after,  *)
(* each <<>> or <<path, time stamp>>.                                        *)
EXTENDS PathLines, TLC, Json, IOUtils
VARIABLES i, at
vars == <<i, at>>
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
Init == i \in 1..Len(Recs) /\ at = "before"
Before == at = "before" /\ R.before = PathLine("before", R.cs) /\ at' = "after" /\ UNCHANGED i
AfterLine == /\ at = "after" /\ R.after = PathLine("after", R.cs) /\ at' = "end"
             /\ PrintT(<<"ACC", i>>) /\ UNCHANGED i
Next == Before \/ AfterLine
Spec == Init /\ [][Next]_vars
=============================================================================
