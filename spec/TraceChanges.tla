---------------------------- MODULE TraceChanges ----------------------------
(* Recorded change lists, searches for longest common runs and clumps of the *)
(* implementation, replayed. A record has k ("t" text, "y" bytes), the two   *)
(* sequences b and a, the changes ch, the queries q with their answers lcs,  *)
(* and for every context size in cs the clumps cl.                           *)
EXTENDS Clumps, TLC, Json, IOUtils
VARIABLES i, pc, n, bp, ap, out
vars == <<i, pc, n, bp, ap, out>>

Recs == ndJsonDeserialize(IOEnv.RECS)
FOCUS == IOEnv.FOCUS
R == Recs[i]

Init == /\ i \in 1..Len(Recs)
        /\ pc = FOCUS /\ n = 1 /\ bp = 0 /\ ap = 0 /\ out = <<>>

----------------------------------------------------------------------------
(* C01: the changes are consumed one by one, replaying them on b             *)
Change(t) == /\ pc = "C01" /\ n <= Len(R.ch) /\ R.ch[n].t = t
             /\ R.ch[n].bs = bp /\ R.ch[n].as = ap
             /\ InBounds(R.b, R.a, R.ch[n]) /\ Shape(R.ch[n])
Moved(items) == /\ n' = n + 1 /\ bp' = R.ch[n].be /\ ap' = R.ch[n].ae
                /\ out' = out \o items /\ UNCHANGED <<i, pc>>

Keep    == Change("N") /\ SameItems(R.b, R.a, R.ch[n]) = TRUE /\ Moved(Rng(R.b, R.ch[n].bs, R.ch[n].be))
Delete  == Change("D") /\ Moved(<<>>)
Insert  == Change("I") /\ Moved(Rng(R.a, R.ch[n].as, R.ch[n].ae))
Replace == Change("R") /\ Moved(Rng(R.a, R.ch[n].as, R.ch[n].ae))

Covered == /\ pc = "C01" /\ n = Len(R.ch) + 1
           /\ bp = Len(R.b) /\ ap = Len(R.a) /\ out = R.a
           /\ ((\A m \in 1..Len(R.ch) : R.ch[m].t = "N") <=> (R.b = R.a)) = TRUE
           /\ pc' = "accept" /\ UNCHANGED <<i, n, bp, ap, out>>

----------------------------------------------------------------------------
(* C02                                                                       *)
Query == /\ pc = "C02" /\ n <= Len(R.q)
         /\ IsLongest(R.b, R.a, R.q[n], R.lcs[n])
         /\ n' = n + 1 /\ UNCHANGED <<i, pc, bp, ap, out>>

Sound(m) == InBounds(R.b, R.a, R.ch[m])
Maximal == /\ pc = "C02" /\ n = Len(R.q) + 1
           /\ (\A m \in 1..Len(R.ch) : Sound(m)) = TRUE
           /\ (\A m \in 1..Len(R.ch) : R.ch[m].be > R.ch[m].bs \/ R.ch[m].ae > R.ch[m].as) = TRUE
           /\ Alternates(R.ch) = TRUE
           /\ NothingCommonLeft(R.b, R.a, R.ch) = TRUE
           /\ pc' = "accept" /\ UNCHANGED <<i, n, bp, ap, out>>

----------------------------------------------------------------------------
(* C03: the clumps of every context size, one by one; bp counts clumps, ap   *)
(* holds the next change                                                     *)
Plain(c) == [t |-> c.t, bs |-> c.bs, be |-> c.be, as |-> c.as, ae |-> c.ae]
NextFrom(ch, c, m) ==      \* the definition's next clump from change m on
    LET f == LeastIn(m, Len(ch), LAMBDA y : StartsClump(ch, c, y)) IN
    IF f < m THEN <<>>
    ELSE <<ClumpFrom(ch, c, f, LeastIn(f, Len(ch), LAMBDA y : EndsClump(ch, c, y)))>>

Agrees(x, g) ==
    /\ g.bs = x.bs /\ g.be = x.be /\ g.as = x.as /\ g.ae = x.ae
    /\ g.rs = <<x.bs, x.be, x.as, x.ae>>
    /\ g.c0 = x.c0 /\ g.c1 = x.c1 /\ g.k0 = x.c0 /\ g.k1 = x.c1
    /\ g.sb = x.bs /\ g.sa = x.as
    /\ g.b = Rng(R.b, x.bs, x.be) /\ g.a = Rng(R.a, x.as, x.ae)
    /\ LET cores == Cores(R.ch, x) IN
       /\ Len(g.cores) = Len(cores)
       /\ \A m \in 1..Len(cores) : Plain(g.cores[m]) = Plain(cores[m])

NextClump ==
    /\ pc = "C03" /\ n <= Len(R.cs) /\ bp < Len(R.cl[n])
    /\ LET x == NextFrom(R.ch, R.cs[n], ap + 1) IN
       /\ x # <<>> /\ Agrees(x[1], R.cl[n][bp + 1]) = TRUE
       /\ bp' = bp + 1 /\ ap' = x[1].l
    /\ UNCHANGED <<i, pc, n, out>>

LastClump ==
    /\ pc = "C03" /\ n <= Len(R.cs) /\ bp = Len(R.cl[n])
    /\ NextFrom(R.ch, R.cs[n], ap + 1) = <<>>
    /\ InOrder(R.cl[n]) = TRUE
    /\ n' = n + 1 /\ bp' = 0 /\ ap' = 0 /\ UNCHANGED <<i, pc, out>>

AllContexts ==
    /\ pc = "C03" /\ n = Len(R.cs) + 1
    /\ Len(R.cl) = Len(R.cs)
    /\ pc' = "accept" /\ UNCHANGED <<i, n, bp, ap, out>>

----------------------------------------------------------------------------
Accept == pc = "accept" /\ PrintT(<<"ACC", i>>) /\ pc' = "end" /\ UNCHANGED <<i, n, bp, ap, out>>
Next == Keep \/ Delete \/ Insert \/ Replace \/ Covered \/ Query \/ Maximal
        \/ NextClump \/ LastClump \/ AllContexts \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
