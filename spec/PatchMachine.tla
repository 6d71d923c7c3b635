---------------------------- MODULE PatchMachine ----------------------------
(* Design model for C16 and C17. A diff of files f and g is made, f may be   *)
(* edited, and pw_patch is run forward, backward or both, one file operation *)
(* at a time. Any operation may fail (once per run) and a run may be killed  *)
(* between any two. The new content of a file is collected in a temporary    *)
(* file t that takes the place of the file when it is complete.              *)
EXTENDS PatchFs, TLC
D == INSTANCE Clumps
CONSTANTS MAXLEN, RUNS

VARIABLES fs, made, v, run, edited
vars == <<fs, made, v, run, edited, s>>

LINES == {"x\n", "y\n"}
Codes(l) ==     \* the lines of conflict blocks stand for themselves
    CASE l = "x\n" -> <<120, 10>> [] l = "y\n" -> <<121, 10>>
      [] l = "<<<<<<<\n" -> <<60, 10>> [] l = "=======\n" -> <<61, 10>> [] OTHER -> <<62, 10>>
Text(ls) == [x |-> TRUE, l |-> ls, d |-> Flatten([n \in 1..Len(ls) |-> Codes(ls[n])])]
Data(ds) == [x |-> FALSE, l |-> <<>>, d |-> ds]
Contents == {Text(ls) : ls \in SeqsUpTo(LINES, MAXLEN)} \cup {Data(<<255>>), Data(<<255, 120, 10>>)}
File(c, m) == [t |-> "file", m |-> m, c |-> c]
None == [t |-> "absent", m |-> 0, c |-> Data(<<>>)]
Folder == [t |-> "dir", m |-> 493, c |-> Data(<<>>)]
Entries(m) == {File(c, m) : c \in Contents} \cup {None, Folder}

FileIs(n) == IsFile(fs[n])
TextIs(n) == FileIs(n) /\ fs[n].c.x
AbsentIs(n) == IsAbsent(fs[n])
DiffOf(c) ==
    LET k == Kind("f", "g", FileIs, TextIs, AbsentIs)
        Cl(b, a) == LET ch == D!SomeChanges(b, a)  xs == D!ClumpsOf(ch, c) IN
                    [n \in 1..Len(xs) |-> D!Stored(b, a, xs[n])]
    IN CASE k \in {"error", "notfound"} -> [kind |-> "refused"]
         [] k = "TextChange" -> [kind |-> k, cl |-> Cl(fs["f"].c.l, fs["g"].c.l)]
         [] k = "ByteChange" -> [kind |-> k, cl |-> Cl(fs["f"].c.d, fs["g"].c.d)]
         [] k \in {"TextAdd", "ByteAdd"} -> [kind |-> k, content |-> fs["g"].c]
         [] OTHER -> [kind |-> k, content |-> fs["f"].c]

Idle == [at |-> "idle", n |-> 0, rev |-> FALSE, fault |-> FALSE, rc |-> 0, was |-> <<>>]
Init == /\ fs \in [{"f"} -> Entries(384)]
        /\ \E e \in Entries(420) : made = [f |-> fs["f"], g |-> e]
        /\ v = [kind |-> "refused"] /\ run = [Idle EXCEPT !.at = "start"] /\ edited = FALSE /\ s = Start
Begin == /\ run.at = "start" /\ fs' = [f |-> made.f, g |-> made.g, t |-> None]
         /\ run' = [run EXCEPT !.at = "diff"] /\ UNCHANGED <<made, v, edited, s>>
MakeDiff == /\ run.at = "diff" /\ \E c \in {0, 1} : v' = DiffOf(c)
            /\ run' = [run EXCEPT !.at = "idle"] /\ UNCHANGED <<fs, made, edited, s>>
Edit == /\ run.at = "idle" /\ ~edited /\ run.n < RUNS
        /\ \E e \in Entries(384) : fs' = [fs EXCEPT !["f"] = e]
        /\ edited' = TRUE /\ UNCHANGED <<made, v, run, s>>

----------------------------------------------------------------------------
At(x) == run.at = x
Go(x) == run' = [run EXCEPT !.at = x]
Exit(rc) == run' = [run EXCEPT !.at = "exit", !.rc = rc]
Keep == UNCHANGED <<made, v, edited>>
StartRun == /\ At("idle") /\ run.n < RUNS
            /\ \E r \in BOOLEAN : run' = [at |-> "open", n |-> run.n + 1, rev |-> r, fault |-> FALSE, rc |-> 0, was |-> fs]
            /\ s' = Start /\ UNCHANGED fs /\ Keep
W == Wants(v, run.rev)
OpenDiff == /\ At("open")
            /\ IF W = "nothing" THEN Exit(1)
               ELSE Go(CASE W = "change" -> "target" [] W = "create" -> "create" [] OTHER -> "delete")
            /\ UNCHANGED <<fs, s>> /\ Keep
ReadTarget == /\ At("target")
              /\ IF FileIs("f") /\ (Word(v) = "text" => TextIs("f")) THEN Go("temp") ELSE Exit(1)
              /\ UNCHANGED <<fs, s>> /\ Keep
Partial == Data(<<0>>)
MakeTemp == /\ At("temp") /\ fs' = [fs EXCEPT !["t"] = File(Partial, 384)] /\ Go("clumps") /\ UNCHANGED s /\ Keep
TextClump == /\ At("clumps") /\ Word(v) = "text" /\ ClumpStep(fs["f"].c.l, Dir(v.cl, run.rev))
             /\ UNCHANGED <<fs, run>> /\ Keep
ByteClump == /\ At("clumps") /\ Word(v) = "bytes" /\ B!ClumpStep(fs["f"].c.d, B!Dir(v.cl, run.rev))
             /\ UNCHANGED <<fs, run>> /\ Keep
Patched == IF Word(v) = "text" THEN Result(fs["f"].c.l) ELSE B!Result(fs["f"].c.d)
PatchedContent ==
    IF Word(v) = "text" THEN Text(Patched) ELSE [x |-> FALSE, l |-> <<>>, d |-> Patched]
WriteRest == /\ At("clumps") /\ s.k = Len(v.cl)
             /\ fs' = [fs EXCEPT !["t"].c = PatchedContent] /\ Go("mode") /\ UNCHANGED s /\ Keep
SetMode == /\ At("mode") /\ fs' = [fs EXCEPT !["t"].m = fs["f"].m] /\ Go("rename") /\ UNCHANGED s /\ Keep
Rename == /\ At("rename") /\ fs' = [fs EXCEPT !["f"] = fs["t"], !["t"] = None]
          /\ Exit(IF s.st[5] = 0 THEN 0 ELSE 1) /\ UNCHANGED s /\ Keep
Create == /\ At("create")
          /\ IF AbsentIs("f") THEN fs' = [fs EXCEPT !["f"] = File(Partial, 420)] /\ Go("fill")
             ELSE Exit(1) /\ UNCHANGED fs
          /\ UNCHANGED s /\ Keep
Fill == At("fill") /\ fs' = [fs EXCEPT !["f"].c = v.content] /\ Exit(0) /\ UNCHANGED s /\ Keep
Delete == /\ At("delete")
          /\ IF FileIs("f") THEN fs' = [fs EXCEPT !["f"] = None] /\ Exit(0) ELSE Exit(1) /\ UNCHANGED fs
          /\ UNCHANGED s /\ Keep
(* an operation fails: the run cleans up and ends                            *)
Fault == /\ run.at \in {"open", "target", "temp", "clumps", "mode", "rename", "create", "fill", "delete"}
         /\ run' = [run EXCEPT !.at = "exit", !.rc = 1, !.fault = TRUE]
         /\ fs' = IF At("fill") THEN [fs EXCEPT !["f"] = None] ELSE [fs EXCEPT !["t"] = None]
         /\ UNCHANGED s /\ Keep
Kill == /\ run.at \in {"open", "target", "temp", "clumps", "mode", "rename", "create", "fill", "delete"}
        /\ Go("killed") /\ UNCHANGED <<fs, s>> /\ Keep
Again == /\ At("exit") /\ run.n < RUNS /\ Go("idle") /\ UNCHANGED <<fs, s>> /\ Keep
Next == Begin \/ MakeDiff \/ Edit \/ StartRun \/ OpenDiff \/ ReadTarget \/ MakeTemp \/ TextClump \/ ByteClump
        \/ WriteRest \/ SetMode \/ Rename \/ Create \/ Fill \/ Delete \/ Fault \/ Kill \/ Again
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Started == run.n > 0 /\ run.at \notin {"idle", "start", "diff"}
OnlyTheTarget == Started => fs["g"] = run.was["g"]
NoStrays == At("exit") => IsAbsent(fs["t"])
(* an existing file that is patched is old or complete at all times          *)
Complete(c) == IF Word(v) = "text" THEN c.x /\ c.l = Result(run.was["f"].c.l) ELSE c.d = B!Result(run.was["f"].c.d)
OldOrComplete ==
    Started /\ W = "change" =>
        \/ fs["f"] = run.was["f"]
        \/ s.k = Len(v.cl) /\ Replaced(run.was, [fs EXCEPT !["t"] = None], "f", Complete)
FailedIsUnchanged == At("exit") /\ run.rc # 0 => (fs = run.was \/ (W = "change" /\ s.st[5] > 0))
FaultFails == At("exit") /\ run.fault => run.rc # 0 /\ fs = run.was
SuccessIsComplete ==
    At("exit") /\ run.rc = 0 =>
        CASE W = "change" -> Replaced(run.was, fs, "f", Complete) /\ s.st[5] = 0
          [] W = "create" -> Created(run.was, fs, "f", LAMBDA c : c = v.content)
          [] W = "delete" -> Deleted(run.was, fs, "f")
(* what the diff was made for works                                          *)
SameFile(e, x) == e.t = x.t /\ (e.t = "file" => e.c.d = x.c.d)
ForwardWorks ==
    At("exit") /\ run.n = 1 /\ ~run.rev /\ ~edited /\ ~run.fault /\ v.kind # "refused" =>
        run.rc = 0 /\ SameFile(fs["f"], made.g)
AsMade == IsFile(made.f) /\ IsFile(made.g) /\ SameFile(run.was["f"], made.g) /\ IsFile(run.was["f"])
BackwardWorks ==
    At("exit") /\ run.rev /\ ~run.fault /\ W = "change" /\ AsMade => run.rc = 0 /\ SameFile(fs["f"], made.f)
=============================================================================
