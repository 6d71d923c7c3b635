------------------------------ MODULE TraceEmit ------------------------------
(* C19: recorded unified output for two texts b and a. A record has the      *)
(* clumps us: [hc header characters, ls body lines], ps what parsing each    *)
(* gave, and fout, fst, rout, rst, what applying the parsed clumps to b, and *)
(* in reverse to a, came to. One action per clump.                           *)
EXTENDS Unified, TLC, Json, IOUtils
VARIABLES i, k, bp, ap, at
vars == <<i, k, bp, ap, at>>
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
U == R.us[k]
H == Header(U.hc)
Init == i \in 1..Len(Recs) /\ k = 1 /\ bp = 0 /\ ap = 0 /\ at = "clumps"

(* what lies between the clumps is the same in both texts                    *)
Between(x, y) == Rng(R.b, bp, x) = Rng(R.a, ap, y)

ClumpStates ==
    /\ at = "clumps" /\ k <= Len(R.us)
    /\ H # <<>>
    /\ LET bl == Value(H[2])  al == Value(H[4])
           bs == Place(Value(H[1]), bl)  as == Place(Value(H[3]), al)
           p == ParseBody(ParseStart, U.ls, bl, al)
           Q == R.ps[k]
       IN /\ bl + al > 0 /\ bs >= bp /\ as >= ap
          /\ Match(R.b, bs, p.b) = TRUE /\ Match(R.a, as, p.a) = TRUE
          /\ p.at = "body" /\ p.n = Len(U.ls)
          /\ Between(bs, as)
          /\ Q.res = "clump" /\ Q.b = p.b /\ Q.a = p.a /\ Q.n = p.n + 1 /\ Q.s = H
          /\ Q.c0 = MinOf(255, p.c0) /\ Q.c1 = MinOf(255, p.c1) /\ ~p.front
          /\ Q.z = <<bs, bs + bl, as, as + al>>
          /\ bp' = bs + bl /\ ap' = as + al
    /\ k' = k + 1 /\ UNCHANGED <<i, at>>
Finish == /\ at = "clumps" /\ k = Len(R.us) + 1
          /\ Between(Len(R.b), Len(R.a))
          /\ R.fout = R.a /\ R.rout = R.b
          /\ R.fst = <<Len(R.us), 0, 0, 0, 0>> /\ R.rst = R.fst
          /\ PrintT(<<"ACC", i>>) /\ at' = "end" /\ UNCHANGED <<i, k, bp, ap>>
Next == ClumpStates \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
