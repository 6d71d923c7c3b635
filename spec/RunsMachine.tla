----------------------------- MODULE RunsMachine -----------------------------
(* Design model for C23: runs at the same time, one file operation at a      *)
(* time. Files have two halves, which are read and written one at a time.    *)
(* A run that changes a file collects its new content in a temporary file.   *)
(* The module refines Runs, where all of that happens at once. With SHARED   *)
(* the temporary files of all runs have the same name: it does not then.     *)
EXTENDS FsOps, TLC
CONSTANTS JOBS, SHARED
VARIABLES job, pc, mem, rc
vars == <<os, job, pc, mem, rc>>

(* a job is [op, n]; a half is the sequence of the runs that have changed it *)
Names == {"f", "g"}
Runs0 == 1..Len(job)
Temp(j) == IF SHARED THEN "t" ELSE "t" \o ToString(j)
Temps == IF SHARED THEN {"t"} ELSE {"t1", "t2", "t3"}
Patched(j, h) == Append(h, j)
Fresh(j) == <<0 - j>>                \* what a creation writes
Conflicts(j) == j = 2                \* this one's patches never fit

Init == /\ job \in JOBS
        /\ \E has \in SUBSET Names :
             os = [name |-> [n \in Names \cup Temps |->
                                IF n \notin has THEN 0 ELSE IF n = "f" \/ "f" \notin has THEN 1 ELSE 2],
                   node |-> [n \in 1..Cardinality(has) |-> [d |-> <<<<>>, <<>>>>, m |-> 400 + n]],
                   fd |-> <<>>]
        /\ pc = [j \in Runs0 |-> "open"] /\ mem = [j \in Runs0 |-> <<>>] /\ rc = [j \in Runs0 |-> 0]

Node(n) == os.node[os.name[n]]
There(n) == os.name[n] # 0
Go(j, at) == pc' = [pc EXCEPT ![j] = at] /\ UNCHANGED <<job, rc>>
End(j, r) == pc' = [pc EXCEPT ![j] = "end"] /\ rc' = [rc EXCEPT ![j] = r] /\ UNCHANGED job
Quiet == UNCHANGED <<os, mem>>
In(j) == 10 * j             \* descriptors
Out(j) == 10 * j + 1
Opening(j, fd, n, tr) == Open([fd |-> fd, n |-> n, cr |-> TRUE, tr |-> tr, app |-> FALSE, m |-> 384])
Half(j, fd) == Fd(fd).pos + 1
Reading(j, fd) ==
    LET h == os.node[Fd(fd).o].d IN
    /\ mem' = [mem EXCEPT ![j] = IF Half(j, fd) <= Len(h) THEN Append(@, h[Half(j, fd)]) ELSE @]
    /\ os' = [os EXCEPT !.fd[fd].pos = @ + 1]

OpenTarget(j) == /\ pc[j] = "open" /\ job[j].op = "change"
                 /\ IF There(job[j].n) THEN Opening(j, In(j), job[j].n, FALSE) /\ Go(j, "read") /\ UNCHANGED mem
                    ELSE End(j, 1) /\ Quiet
ReadHalf(j) == pc[j] = "read" /\ Reading(j, In(j)) /\ Go(j, IF Half(j, In(j)) = 2 THEN "temp" ELSE "read")
MakeTemp(j) == /\ pc[j] = "temp" /\ Opening(j, Out(j), Temp(j), TRUE) /\ Go(j, "write") /\ UNCHANGED mem
WriteHalf(j) ==
    /\ pc[j] = "write" /\ mem[j] # <<>>
    /\ Write([fd |-> Out(j), d |-> <<Patched(j, Head(mem[j]))>>])
    /\ mem' = [mem EXCEPT ![j] = Tail(@)] /\ Go(j, IF Len(mem[j]) = 1 THEN "mode" ELSE "write")
SetMode(j) ==       \* looking at the target's first
    /\ pc[j] = "mode"
    /\ IF There(job[j].n) /\ There(Temp(j))
       THEN Chmod([n |-> Temp(j), m |-> Node(job[j].n).m]) /\ Go(j, "rename") /\ UNCHANGED mem
       ELSE os' = [os EXCEPT !.name[Temp(j)] = 0] /\ End(j, 1) /\ UNCHANGED mem
Replace(j) ==
    /\ pc[j] = "rename"
    /\ IF There(Temp(j)) THEN Rename([n |-> Temp(j), n2 |-> job[j].n]) /\ End(j, IF Conflicts(j) THEN 1 ELSE 0)
       ELSE End(j, 1) /\ UNCHANGED os
    /\ UNCHANGED mem

MakeFile(j) == /\ pc[j] = "open" /\ job[j].op = "create"
               /\ IF There(job[j].n) THEN End(j, 1) /\ Quiet
                  ELSE Opening(j, Out(j), job[j].n, FALSE) /\ Go(j, "fill") /\ UNCHANGED mem
FillHalf(j) == /\ pc[j] = "fill" /\ Write([fd |-> Out(j), d |-> <<Fresh(j)>>])
               /\ UNCHANGED mem
               /\ IF Half(j, Out(j)) = 2 THEN End(j, 0) ELSE Go(j, "fill")
RemoveFile(j) == /\ pc[j] = "open" /\ job[j].op = "delete"
             /\ IF There(job[j].n) THEN Unlink([n |-> job[j].n]) /\ End(j, 0) /\ UNCHANGED mem
                ELSE End(j, 1) /\ Quiet
Step(j) == OpenTarget(j) \/ ReadHalf(j) \/ MakeTemp(j) \/ WriteHalf(j) \/ SetMode(j) \/ Replace(j)
           \/ MakeFile(j) \/ FillHalf(j) \/ RemoveFile(j)
Next == \E j \in Runs0 : Step(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* What Runs would say of it. A file that is being filled counts as full:    *)
(* whatever has its name has the content that it is going to have.           *)
AllEnd == \A j \in Runs0 : pc[j] = "end"
Filling(o) == {j \in Runs0 : pc[j] = "fill" /\ Fd(Out(j)).o = o}
Content(o) == IF Filling(o) = {} THEN os.node[o].d ELSE LET j == CHOOSE x \in Filling(o) : TRUE IN <<Fresh(j), Fresh(j)>>
IsMade(o) == \E h \in Items(Content(o)) : h # <<>> /\ h[1] < 0
EntryOf(n) == IF ~There(n) THEN [t |-> "absent", m |-> 0, c |-> 0]
              ELSE [t |-> "file", m |-> IF IsMade(os.name[n]) THEN -1 ELSE Node(n).m, c |-> Content(os.name[n])]
Abs_fs == [n \in Names |-> EntryOf(n)]
ReadBy(j) == os.node[Fd(In(j)).o]
Abs_ps == [j \in Runs0 |->
    [at |-> CASE pc[j] = "open" -> "new" [] pc[j] \in {"end", "fill"} -> "end" [] OTHER -> "read",
     e |-> IF job[j].op = "change" /\ IsOpen(In(j)) THEN [t |-> "file", m |-> ReadBy(j).m, c |-> ReadBy(j).d]
           ELSE [t |-> "unread", m |-> 0, c |-> 0],
     f |-> [t |-> "unread", m |-> 0, c |-> 0],
     rc |-> rc[j]]]
A == INSTANCE Runs WITH fs <- Abs_fs, ps <- Abs_ps
IsF(e) == e.t = "file"
AbsStep(j) ==
    LET n == job[j].n IN
    CASE job[j].op = "change" ->
            \/ A!ReadsTarget(j, n, IsF) \/ A!NoTarget(j, n, IsF) \/ A!GivesUp(j, n)
            \/ A!Replaces(j, n, [h \in 1..2 |-> Patched(j, Abs_ps[j].e.c[h])], ~Conflicts(j))
      [] job[j].op = "create" -> A!Creates(j, n, <<Fresh(j), Fresh(j)>>) \/ A!CreateRefused(j, n)
      [] job[j].op = "delete" -> A!Deletes(j, n) \/ A!DeleteRefused(j, n)
Refines == [][\E j \in Runs0 : AbsStep(j)]_<<Abs_fs, Abs_ps>>

NoStrays == AllEnd => \A t \in Temps : os.name[t] = 0
(* a file that exists has two complete halves from the same history, except  *)
(* while it is being filled                                                  *)
Complete == \A n \in Names : There(n) /\ Filling(os.name[n]) = {} => Len(Node(n).d) = 2 /\ Node(n).d[1] = Node(n).d[2]
OneCreation == AllEnd => \A n \in Names :
    (\A j \in Runs0 : job[j].n = n => job[j].op = "create") =>
        Cardinality({j \in Runs0 : job[j].n = n /\ rc[j] = 0}) <= 1
AloneIsAlone ==       \* nobody else has this target: it comes to what it would alone
    AllEnd => \A j \in Runs0 :
        (\A x \in Runs0 \ {j} : job[x].n # job[j].n) =>
            /\ (job[j].op = "change" /\ There(job[j].n) => Node(job[j].n).d = <<<<j>>, <<j>>>>)
            /\ (job[j].op = "create" => There(job[j].n))
            /\ (job[j].op = "delete" => ~There(job[j].n))
Ends == <>AllEnd

Ops == {"change", "create", "delete"}
Sane(js) ==     \* nobody changes a file that another creates
    \A x, y \in 1..Len(js) : js[x].n = js[y].n => {js[x].op, js[y].op} # {"change", "create"}
Pairs == {js \in [1..2 -> [op : Ops, n : Names]] : Sane(js)}
Triples == {js \in [1..3 -> [op : Ops, n : {"f"}]] : Sane(js)}
=============================================================================
