------------------------------ MODULE TraceCrash ------------------------------
(* C17: runs of pw_patch on the same files, each with something happening at *)
(* one file operation: inj is "none", "kill", "part" (killed half way        *)
(* through a write), "err", "full" (no more space from then on) or "short"   *)
(* (less is read or written than asked for), or "there" (the files that it   *)
(* makes on the way exist already). The patch is applied clump by clump      *)
(* first, to know what is due; then every run has to have come to something  *)
(* allowed.                                                                  *)
EXTENDS PatchFs, TLC, Json, IOUtils
VARIABLES
    i, k, at, did,
    was,        \* the files before each of the runs
    fin         \* the contents (their numbers) that the target may come to have
vars == <<i, k, at, did, was, fin, s>>
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
Run == R.runs[k]
Entry(fs, n) ==
    LET m == SelectInSeq(fs, LAMBDA e : e.n = n) IN
    IF m = 0 THEN [t |-> "absent", m |-> 0, c |-> 0] ELSE [t |-> fs[m].t, m |-> fs[m].m, c |-> fs[m].c]
Fs(names, list) == [n \in Items(names) |-> Entry(list, n)]
Now == Fs(R.names, Run.now)
Read == R.cs[was[R.n].c]
W == Wants(R.v, R.rev)
Applies == W = "change" /\ IsFile(was[R.n]) /\ CanRead(was[R.n], R.u) /\ (Word(R.v) = "text" => Read.x)

Init == /\ i \in 1..Len(Recs) /\ k = 1 /\ did = "" /\ s = Start /\ at = "begin" /\ fin = {}
        /\ was = TLCEval(Fs(Recs[i].names, Recs[i].was))
All == 1..Len(R.cs)
Begin == /\ at = "begin" /\ at' = (IF ~Applies THEN "runs" ELSE Word(R.v))
         /\ fin' = IF W = "create" THEN {c \in All : R.cs[c].d = R.v.content} ELSE {}
         /\ UNCHANGED <<i, k, did, was, s>>
TextClump == at = "text" /\ ClumpStep(Read.l, Dir(R.v.cl, R.rev)) /\ UNCHANGED <<i, k, at, did, was, fin>>
ByteClump == at = "bytes" /\ B!ClumpStep(Read.d, B!Dir(R.v.cl, R.rev)) /\ UNCHANGED <<i, k, at, did, was, fin>>
AllClumps == /\ at \in {"text", "bytes"} /\ s.k = Len(R.v.cl)
             /\ fin' = LET x == IF at = "text" THEN Result(Read.l) ELSE B!Result(Read.d) IN
                       {c \in All : IF at = "text" THEN R.cs[c].x /\ R.cs[c].l = x ELSE R.cs[c].d = x}
             /\ at' = "runs" /\ UNCHANGED <<i, k, did, was, s>>

IsFinal(c) == c \in fin
Whole(now) ==
    CASE W = "change"  -> Applies /\ Replaced(was, now, R.n, IsFinal)
      [] W = "create"  -> Created(was, now, R.n, IsFinal)
      [] W = "delete"  -> Deleted(was, now, R.n)
      [] W = "nothing" -> FALSE

Done(x) == k' = k + 1 /\ did' = did \o x /\ UNCHANGED <<i, at, was, fin, s>>
Ready == at = "runs" /\ k <= Len(R.runs)
Killed == Run.inj \in {"kill", "part"} /\ Run.rc = -9
Succeeds == Ready /\ Run.rc = 0 /\ s.st[5] = 0 /\ (LET now == Now IN Whole(now)) /\ Done("S")
(* nothing stands in the way                                                 *)
Possible == CASE W = "change"  -> Applies /\ s.st[5] = 0
              [] W = "create"  -> IsAbsent(was[R.n])
              [] W = "delete"  -> IsFile(was[R.n])
              [] W = "nothing" -> FALSE
Fails == /\ Ready /\ ~Killed /\ Run.rc # 0 /\ (Run.inj = "none" => ~Possible) /\ Unchanged(was, Now)
         /\ Done("F")
Conflicts == Ready /\ ~Killed /\ Run.rc # 0 /\ W = "change" /\ s.st[5] > 0 /\ (LET now == Now IN ~Unchanged(was, now) /\ Whole(now)) /\ Done("X")

(* killed: other existing files are as they were                             *)
Kept(now) == \A n \in DOMAIN was \ {R.n} : ~IsAbsent(was[n]) => now[n] = was[n]
OnlyTarget(now) == [n \in DOMAIN was |-> IF n = R.n THEN now[n] ELSE was[n]]
KilledBefore == Ready /\ Killed /\ (LET now == Now IN Kept(now) /\ now[R.n] = was[R.n]) /\ Done("k")
KilledAfter  == /\ Ready /\ Killed
                /\ (LET now == Now IN Kept(now) /\ now[R.n] # was[R.n] /\ Whole(OnlyTarget(now)))
                /\ Done("K")
KilledCreating == /\ Ready /\ Killed /\ W = "create" /\ IsAbsent(was[R.n])
                  /\ (LET now == Now IN Kept(now) /\ IsFile(now[R.n]) /\ ~IsFinal(now[R.n].c))
                  /\ Done("c")

Accept == at = "runs" /\ k = Len(R.runs) + 1 /\ PrintT(<<"ACC", i, did>>) /\ at' = "end" /\ UNCHANGED <<i, k, did, was, fin, s>>
Next == Begin \/ TextClump \/ ByteClump \/ AllClumps \/ Succeeds \/ Fails \/ Conflicts
        \/ KilledBefore \/ KilledAfter \/ KilledCreating \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
