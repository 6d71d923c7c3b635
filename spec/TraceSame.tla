------------------------------- MODULE TraceSame -------------------------------
(* C22: answers recorded from several threads of several processes. ev: the  *)
(* question q and the answer a, in the order in which they were given.       *)
EXTENDS Same, TLC, Json, IOUtils
VARIABLES i, n
vars == <<i, n, memo>>
Recs == ndJsonDeserialize(IOEnv.RECS)
Ev == Recs[i].ev
Init == /\ i \in 1..Len(Recs) /\ n = 1 /\ Nothing(0..(Recs[i].nq - 1))
TAnswer == /\ n <= Len(Ev) /\ Answer(Ev[n].q, Ev[n].a) /\ n' = n + 1 /\ UNCHANGED i
Accept == /\ n = Len(Ev) + 1 /\ \A q \in DOMAIN memo : memo[q] # {}
          /\ PrintT(<<"ACC", i>>) /\ n' = n + 1 /\ UNCHANGED <<i, memo>>
Next == TAnswer \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
