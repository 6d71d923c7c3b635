------------------------------ MODULE TracePair ------------------------------
(* C23: recorded schedules of runs at the same time. A record has the files  *)
(* was, the runs jobs and, for each schedule, its segments: one run j goes   *)
(* on until it is stopped or (end) has come to its end; now is what is there *)
(* then. First, every patch is applied clump by clump to every content that  *)
(* its target can come to have. Then every schedule has to be explained by   *)
(* steps of Runs, each taken in a segment of its run.                        *)
EXTENDS PatchFs, TLC, Json, IOUtils
VARIABLES
    i, at, did,
    was,
    todo,       \* applications to be looked at: <<run, content, runs that have changed the target>>
    cur,        \* the one under way
    out,        \* <<run, content>> to what that comes to: [c, ok]
    k, q,       \* schedule and segment
    fs, ps
vars == <<i, at, did, was, todo, cur, out, k, q, fs, ps, s>>
A == INSTANCE Runs
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
Entry(list, n) ==
    LET m == SelectInSeq(list, LAMBDA e : e.n = n) IN
    IF m = 0 THEN [t |-> "absent", m |-> 0, c |-> 0] ELSE [t |-> list[m].t, m |-> list[m].m, c |-> list[m].c]
Fs(r, list) == [n \in Items(r.names) |-> Entry(list, n)]
Jobs(r) == 1..Len(r.jobs)
WantsOf(r, j) == IF r.jobs[j].op = "diff" THEN "diff" ELSE Wants(r.jobs[j].v, r.jobs[j].rev)
Want(j) == WantsOf(R, j)
Target(j) == R.jobs[j].n
Changers(r) == {j \in Jobs(r) : WantsOf(r, j) = "change"}
CanApply(r, j, c) == Word(r.jobs[j].v) = "text" => r.cs[c].x

Init == /\ i \in 1..Len(Recs) /\ at = "jobs" /\ did = {} /\ s = Start /\ k = 1 /\ q = 1
        /\ was = TLCEval(Fs(Recs[i], Recs[i].was)) /\ fs = was
        /\ todo = {<<j, was[Recs[i].jobs[j].n].c, {j}>> :
                     j \in {x \in Changers(Recs[i]) : IsFile(was[Recs[i].jobs[x].n])}}
        /\ cur = <<>> /\ out = <<>>
        /\ ps = [j \in Jobs(Recs[i]) |-> A!NewRun]
Rest == UNCHANGED <<i, did, was, k, q, fs, ps>>
With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
NextJob == /\ at = "jobs" /\ todo # {}
           /\ cur' = (CHOOSE x \in todo : TRUE) /\ todo' = todo \ {cur'}
           /\ s' = Start /\ UNCHANGED out /\ Rest
           /\ at' = IF <<cur'[1], cur'[2]>> \in DOMAIN out THEN "follow"
                    ELSE IF CanApply(R, cur'[1], cur'[2]) THEN Word(R.jobs[cur'[1]].v) ELSE "jobs"
Job == R.jobs[cur[1]]
From == R.cs[cur[2]]
TextClump == at = "text" /\ ClumpStep(From.l, Dir(Job.v.cl, Job.rev)) /\ UNCHANGED <<at, todo, cur, out>> /\ Rest
ByteClump == at = "bytes" /\ B!ClumpStep(From.d, B!Dir(Job.v.cl, Job.rev)) /\ UNCHANGED <<at, todo, cur, out>> /\ Rest
AllClumps == /\ at \in {"text", "bytes"} /\ s.k = Len(Job.v.cl)
             /\ LET x == IF at = "text" THEN Result(From.l) ELSE B!Result(From.d)
                    c == SelectInSeq(R.cs, LAMBDA e : IF at = "text" THEN e.x /\ e.l = x ELSE e.d = x)
                IN out' = With(out, <<cur[1], cur[2]>>, [c |-> c, ok |-> s.st[5] = 0])
             /\ at' = "follow" /\ UNCHANGED <<todo, cur, s>> /\ Rest
(* other runs may find what it comes to                                      *)
Follow == /\ at = "follow" /\ at' = "jobs"
          /\ LET c == out[<<cur[1], cur[2]>>].c IN
             todo' = todo \cup (IF c = 0 THEN {} ELSE
                 {<<j, c, cur[3] \cup {j}>> : j \in {x \in Changers(R) \ cur[3] : Target(x) = Target(cur[1])}})
          /\ UNCHANGED <<cur, out, s>> /\ Rest
JobsDone == at = "jobs" /\ todo = {} /\ at' = "run" /\ UNCHANGED <<todo, cur, out, s>> /\ Rest

----------------------------------------------------------------------------
Seg == R.sch[k][q]
J == Seg.j
Running == at = "run" /\ k <= Len(R.sch)
Keep(x) == did' = did \cup {x} /\ UNCHANGED <<i, at, was, todo, cur, out, k, q, s>>
Can(e) == IsFile(e) /\ CanRead(e, R.u) /\ CanApply(R, J, e.c)
OutOf(e) == out[<<J, e.c>>]

ReadsTarget   == Running /\ Want(J) = "change" /\ A!ReadsTarget(J, Target(J), Can) /\ Keep("r")
NoTarget      == Running /\ Want(J) = "change" /\ A!NoTarget(J, Target(J), Can) /\ Keep("n")
Replaces      == /\ Running /\ Want(J) = "change" /\ ps[J].at = "read" /\ OutOf(ps[J].e).c # 0
                 /\ A!Replaces(J, Target(J), OutOf(ps[J].e).c, OutOf(ps[J].e).ok) /\ Keep("R")
GivesUp       == Running /\ Want(J) = "change" /\ A!GivesUp(J, Target(J)) /\ Keep("g")
Creates       == /\ Running /\ Want(J) = "create"
                 /\ A!Creates(J, Target(J), SelectInSeq(R.cs, LAMBDA e : e.d = R.jobs[J].v.content)) /\ Keep("C")
CreateRefused == Running /\ Want(J) = "create" /\ A!CreateRefused(J, Target(J)) /\ Keep("c")
Deletes       == Running /\ Want(J) = "delete" /\ A!Deletes(J, Target(J)) /\ Keep("D")
DeleteRefused == Running /\ Want(J) = "delete" /\ A!DeleteRefused(J, Target(J)) /\ Keep("d")
ReadsOld      == Running /\ Want(J) = "diff" /\ A!ReadsOld(J, R.jobs[J].b) /\ Keep("o")
ReadsNew      == Running /\ Want(J) = "diff" /\ A!ReadsNew(J, R.jobs[J].a) /\ Keep("w")
WritesDiff    == Running /\ Want(J) = "diff" /\ A!WritesDiff(J) /\ Keep("W")

(* in between there may be files that are gone in the end, and those that    *)
(* are being made may be incomplete                                          *)
Made == {Target(j) : j \in {x \in Jobs(R) : Want(x) = "create"}}
Watched == {n \in DOMAIN was : ~IsAbsent(was[n])} \ Made
Stop == /\ Running /\ ~Seg.end /\ q < Len(R.sch[k])
        /\ (LET now == Fs(R, Seg.now) IN \A n \in Watched : now[n] = fs[n]) = TRUE
        /\ q' = q + 1 /\ UNCHANGED <<i, at, did, was, todo, cur, out, k, fs, ps, s>>
WholeDiff(v) ==
    /\ v.kind = "TextChange"
    /\ LeadsTo(R.cs[ps[J].e.c].l, R.cs[ps[J].f.c].l, v.cl)
Over == /\ Running /\ Seg.end /\ ps[J].at = "end" /\ (Seg.rc = 0) = (ps[J].rc = 0)
        /\ (Want(J) = "diff" => WholeDiff(R.docs[Seg.v])) = TRUE
        /\ (LET now == Fs(R, Seg.now) IN \A n \in Watched : now[n] = fs[n]) = TRUE
End == /\ Over /\ q < Len(R.sch[k])
       /\ q' = q + 1 /\ UNCHANGED <<i, at, did, was, todo, cur, out, k, fs, ps, s>>
SameEntry(e, now) == e = now \/ (e.m = A!AnyMode /\ now = [e EXCEPT !.m = now.m])
LastEnd == /\ Over /\ q = Len(R.sch[k])
           /\ (LET now == Fs(R, Seg.now) IN \A n \in DOMAIN was : SameEntry(fs[n], now[n])) = TRUE
           /\ k' = k + 1 /\ q' = 1 /\ fs' = was /\ ps' = [j \in Jobs(R) |-> A!NewRun]
           /\ UNCHANGED <<i, at, did, was, todo, cur, out, s>>
Letters == FoldLeft(LAMBDA x, y : IF y \in did THEN x \o y ELSE x, "",
                   <<"r", "n", "R", "g", "C", "c", "D", "d", "o", "w", "W">>)
Accept == at = "run" /\ k = Len(R.sch) + 1 /\ PrintT(<<"ACC", i, Letters>>) /\ at' = "end"
          /\ UNCHANGED <<i, did, was, todo, cur, out, k, q, fs, ps, s>>
Next == NextJob \/ TextClump \/ ByteClump \/ AllClumps \/ Follow \/ JobsDone
        \/ ReadsTarget \/ NoTarget \/ Replaces \/ GivesUp \/ Creates \/ CreateRefused \/ Deletes \/ DeleteRefused
        \/ ReadsOld \/ ReadsNew \/ WritesDiff \/ Stop \/ End \/ LastEnd \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
