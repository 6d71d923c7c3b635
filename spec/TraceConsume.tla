----------------------------- MODULE TraceConsume -----------------------------
(* C12: recorded histories of operations on consumable sequences.            *)
EXTENDS Consume, TLC, Json, IOUtils
VARIABLES i, n
vars == <<i, n, d, c, w, skip>>
Recs == ndJsonDeserialize(IOEnv.RECS)
Op == Recs[i].ops[n]

Init == /\ i \in 1..Len(Recs) /\ n = 1
        /\ d = Recs[i].d /\ c = 0 /\ w = <<>> /\ skip = {}
Is(o) == n <= Len(Recs[i].ops) /\ Op.o = o /\ n' = n + 1 /\ UNCHANGED i
Observed ==      \* bound to the state after the operation
    /\ Op.c = c' /\ Op.w = SubSeq(w', Len(w) + 1, Len(w'))
    /\ Op.len = Len(d) /\ Op.left = <<c', Len(d)>>
TWrite  == Is("w") /\ WriteUpto(Op.n) /\ Observed
TSkip   == Is("s") /\ Skip(Op.n) /\ Observed
TRest   == Is("r") /\ WriteRemainder /\ Observed
THas    == /\ Is("h") /\ UNCHANGED <<d, c, w, skip>> /\ Observed
           /\ Op.y = Present(Op.x, Op.n) /\ Op.y2 = Op.y
TPart   == /\ Is("p") /\ UNCHANGED <<d, c, w, skip>> /\ Op.c = c
           /\ LET x == Part(Op.n, Op.m) IN
              Op.w = x /\ Op.sub = x /\ Op.back = x /\ Op.cut = [start |-> Op.n, items |-> x]
Accept  == /\ n = Len(Recs[i].ops) + 1 /\ PrintT(<<"ACC", i>>)
           /\ n' = n + 1 /\ UNCHANGED <<i, d, c, w, skip>>
Next == TWrite \/ TSkip \/ TRest \/ THas \/ TPart \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
