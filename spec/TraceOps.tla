------------------------------- MODULE TraceOps -------------------------------
(* C17: the file operations that a run of pw_patch made, replayed. After the *)
(* replay has been found to end with the files that were really there        *)
(* (otherwise some operation went unseen, and nothing can be said), it is    *)
(* made again, and a crash after each operation, and half way through each   *)
(* write, has to leave the target as it was or complete and other existing   *)
(* files untouched.                                                          *)
EXTENDS FsOps, TLC, Json, IOUtils
VARIABLES i, k, pass
vars == <<i, k, pass, os>>
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
Names == Items(R.names)
At(list, n) == SelectInSeq(list, LAMBDA e : e.n = n)
Data(list, n) == LET m == At(list, n) IN IF m = 0 THEN <<>> ELSE <<[d |-> list[m].d, m |-> list[m].m]>>

OsStart(r) ==
    [name |-> [n \in Items(r.names) |-> At(r.was, n)],
     node |-> [n \in 1..Len(r.was) |-> [d |-> r.was[n].d, m |-> r.was[n].m]],
     fd |-> <<>>]
Init == /\ i \in 1..Len(Recs) /\ k = 1 /\ pass = 1
        /\ os = OsStart(Recs[i])
Has(n) == IF os.name[n] = 0 THEN <<>> ELSE <<os.node[os.name[n]]>>

(* existing files: as they were, and the target perhaps as it is at the end  *)
Fine(has(_)) ==
    \A n \in Names :
        \/ Data(R.was, n) = <<>>
        \/ has(n) = Data(R.was, n)
        \/ n = R.n /\ has(n) = Data(R.now, n)
FineHalfWay(o) ==
    o.o = "write" =>
        LET f == Fd(o.fd)
            half == SubSeq(o.d, 1, Len(o.d) \div 2)
            HalfWay(n) == IF os.name[n] = f.o
                          THEN <<[os.node[f.o] EXCEPT !.d = Written(@, IF f.app THEN Len(@) ELSE f.pos, half)]>>
                          ELSE Has(n)
        IN Fine(HalfWay)

Operation == /\ pass \in {1, 2} /\ k <= Len(R.ops)
             /\ Does(R.ops[k]) /\ k' = k + 1
             /\ (pass = 2 => Fine(Has) /\ FineHalfWay(R.ops[k])) = TRUE
             /\ UNCHANGED <<i, pass>>
AsItWas == \A n \in Names : Has(n) = Data(R.now, n)
Seen == /\ pass = 1 /\ k = Len(R.ops) + 1 /\ AsItWas
        /\ pass' = 2 /\ k' = 1 /\ os' = OsStart(R) /\ UNCHANGED i
Unseen == /\ pass = 1 /\ k = Len(R.ops) + 1 /\ ~AsItWas
          /\ PrintT(<<"ACC", i, "U">>) /\ pass' = 3 /\ UNCHANGED <<i, k, os>>
Accept == /\ pass = 2 /\ k = Len(R.ops) + 1 /\ Fine(Has) = TRUE
          /\ PrintT(<<"ACC", i, "C">>) /\ pass' = 3 /\ UNCHANGED <<i, k, os>>
Next == Operation \/ Seen \/ Unseen \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
