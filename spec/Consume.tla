------------------------------- MODULE Consume -------------------------------
(* A partly consumed sequence d: c items dealt with, w what has been written *)
(* and skip the positions skipped.                                           *)
EXTENDS Base
VARIABLES d, c, w, skip

WriteUpto(n) ==
    /\ n \in 0..Len(d)
    /\ w' = w \o Rng(d, c, n) /\ c' = MaxOf(c, n) /\ UNCHANGED <<d, skip>>
Skip(n) ==
    /\ n \in 0..(Len(d) - c)
    /\ c' = c + n /\ skip' = skip \cup (c..(c + n - 1)) /\ UNCHANGED <<d, w>>
WriteRemainder ==
    w' = w \o Rng(d, c, Len(d)) /\ c' = Len(d) /\ UNCHANGED <<d, skip>>

Present(x, at) == Match(d, at, x)
Part(n, m) == Rng(d, n, m)
=============================================================================
