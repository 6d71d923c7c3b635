------------------------------ MODULE TraceText ------------------------------
(* Recorded applications of text diffs, replayed (C07, C08, C09). A record   *)
(* has the file p, the clumps cl, the direction rev, what came of applying   *)
(* each prefix of the clumps (runs: n, out, st) and the answer aa to whether *)
(* the whole diff is already applied. One behaviour per run, and one for the *)
(* whole-diff query (run 0).                                                 *)
EXTENDS ApplyText, TLC, Json, IOUtils
VARIABLES i, j, pc
vars == <<i, j, pc, s>>

Recs == ndJsonDeserialize(IOEnv.RECS)
FOCUS == IOEnv.FOCUS
R == Recs[i]
Run == R.runs[j]
Clumps == Dir(SubSeq(R.cl, 1, Run.n), R.rev)

Init == /\ i \in 1..Len(Recs) /\ j \in (IF FOCUS = "C08" THEN 0 ELSE 1)..Len(Recs[i].runs)
        /\ pc = "clumps" /\ s = Start

Step == /\ pc = "clumps" /\ j > 0 /\ ClumpStep(R.p, Clumps) /\ UNCHANGED <<i, j, pc>>

Finish == /\ pc = "clumps" /\ j > 0 /\ s.k = Len(Clumps)
          /\ pc' = IF Result(R.p) = Run.out /\ s.st = Run.st THEN "same" ELSE "differ"
          /\ UNCHANGED <<i, j, s>>

Query == /\ pc = "clumps" /\ j = 0
         /\ pc' = IF AlreadyApplied(R.p, Dir(R.cl, R.rev)) = R.aa THEN "same" ELSE "query"
         /\ UNCHANGED <<i, j, s>>

(* which property a difference belongs to: to what was due for the last two  *)
(* clumps of the run and to the categories whose counts differ               *)
Due(S) == \E n \in {s.k - 1, s.k} : n > 0 /\ SubSeq(s.kinds, n, n) \in S
Counts(S) == \E n \in S : s.st[n] # Run.st[n]
Concerns ==
    CASE FOCUS = "C07" -> Due({"E", "e", "N", "n"}) \/ Counts({1, 2})
      [] FOCUS = "C08" -> Due({"A", "a", "B", "b"}) \/ Counts({3, 4})
      [] FOCUS = "C09" -> Due({"X"}) \/ s.st # Run.st
      [] OTHER -> TRUE

Short(x) == SubSeq(x, 1, MinOf(Len(x), 40))
Same == pc = "same" /\ PrintT(<<"ACC", i, Short(s.kinds)>>) /\ pc' = "end" /\ UNCHANGED <<i, j, s>>
Differ == /\ pc = "differ"
          /\ PrintT(<<IF Concerns THEN "REJ" ELSE "ACC", i, j, Short(s.kinds)>>)
          /\ pc' = "end" /\ UNCHANGED <<i, j, s>>
QueryDiffers == pc = "query" /\ PrintT(<<"REJ", i, 0, "query">>) /\ pc' = "end" /\ UNCHANGED <<i, j, s>>

Next == Step \/ Finish \/ Query \/ Same \/ Differ \/ QueryDiffers
Spec == Init /\ [][Next]_vars
=============================================================================
