----------------------------- MODULE TraceReader -----------------------------
(* C11: recorded readings. A record has the pieces ps ("i" interruption, "e" *)
(* failure) and what came out: t lines, y bytes, m the text split in memory. *)
EXTENDS Reader, TLC, Json, IOUtils
VARIABLES i, n
vars == <<i, n, r>>
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
P == R.ps[n]

Init == i \in 1..Len(Recs) /\ n = 1 /\ r = ReadStart
Go == n <= Len(R.ps) /\ n' = n + 1 /\ UNCHANGED i
Piece     == Go /\ P.p = "d" /\ Deliver(P.d)
Stutter   == Go /\ P.p = "i" /\ Interrupt
Fail      == Go /\ P.p = "e" /\ Failure
Rest      == Go /\ r.at # "reading" /\ UNCHANGED r     \* what is never asked for
Eof       == n = Len(R.ps) + 1 /\ EndOfInput /\ UNCHANGED <<i, n>>

Delivered == Flatten([m \in 1..Len(R.ps) |-> IF R.ps[m].p = "d" THEN R.ps[m].d ELSE <<>>])
Accept ==
    /\ n = Len(R.ps) + 1 /\ r.at \in {"done", "failed"}
    /\ IF TextResult = "error" THEN R.t.r = "error" ELSE R.t.r = "lines" /\ R.t.d = r.lines
    /\ IF BytesResult = "error" THEN R.y.r = "error" ELSE R.y.r = "bytes" /\ R.y.d = Flatten(r.lines)
    /\ r.at = "done" =>
         IF r.q = "ok" THEN R.m.r = "lines" /\ R.m.d = r.lines ELSE R.m.r = "error"
    /\ PrintT(<<"ACC", i>>) /\ n' = n + 1 /\ UNCHANGED <<i, r>>
Next == Piece \/ Stutter \/ Fail \/ Rest \/ Eof \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
