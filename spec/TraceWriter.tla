----------------------------- MODULE TraceWriter -----------------------------
(* C13: recorded calls that limited writers got while a diff was applied or  *)
(* a file's content written. A record has the whole output (full) and per    *)
(* writer (rs) the calls ev and whether success was reported.                *)
EXTENDS Writer, TLC, Json, IOUtils
VARIABLES i, j, n
vars == <<i, j, n, full, x, at>>
Recs == ndJsonDeserialize(IOEnv.RECS)
W == Recs[i].rs[j]
Ev == W.ev[n]
Init == /\ i \in 1..Len(Recs) /\ j = 1 /\ n = 1
        /\ full = Recs[i].full /\ x = 0 /\ at = "writing"
Is(e) == n <= Len(W.ev) /\ Ev.e = e /\ n' = n + 1 /\ UNCHANGED <<i, j>>
TAccept == Is("w") /\ AcceptSome(Ev.d)
TInterrupted == Is("i") /\ Interrupted
TFails == Is("e") /\ Fails
TReport == /\ n = Len(W.ev) + 1
           /\ IF W.ok THEN ReportOk ELSE ReportError
           /\ n' = n + 1 /\ UNCHANGED <<i, j>>
NextWriter == /\ n = Len(W.ev) + 2
              /\ IF j < Len(Recs[i].rs)
                 THEN j' = j + 1 /\ n' = 1 /\ x' = 0 /\ at' = "writing" /\ UNCHANGED <<i, full>>
                 ELSE PrintT(<<"ACC", i>>) /\ n' = n + 1 /\ UNCHANGED <<i, j, full, x, at>>
Next == TAccept \/ TInterrupted \/ TFails \/ TReport \/ NextWriter
Spec == Init /\ [][Next]_vars
=============================================================================
