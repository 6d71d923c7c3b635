------------------------------ MODULE TracePatch ------------------------------
(* C16: recorded histories. A record has the names and contents (cs) that    *)
(* occur, whether permissions apply (u), and steps st: each has an operation *)
(* op and the file system fs after it.                                       *)
(*   "edit"   something else changed the files                               *)
(*   "diff"   pw_diff of b and a with context c: exit status rc, diff v      *)
(*   "patch"  pw_patch of diff v, perhaps in reverse, whose target n is in   *)
(*            directory dir                                                  *)
(*   "usage"  a run that has to be refused                                   *)
(* A patch that changes a file is applied clump by clump.                    *)
EXTENDS PatchFs, TLC, Json, IOUtils
VARIABLES i, k, at, did
vars == <<i, k, at, did, s>>
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
St == R.st[k]
Names == Items(R.names)
Entry(fs, n) ==
    LET m == SelectInSeq(fs, LAMBDA e : e.n = n) IN
    IF m = 0 THEN [t |-> "absent", m |-> 0, c |-> 0, to |-> ""]
    ELSE [t |-> fs[m].t, m |-> fs[m].m, c |-> fs[m].c, to |-> IF fs[m].t = "link" THEN fs[m].to ELSE ""]
Fs(st) == [n \in Names |-> Entry(st.fs, n)]
Was == Fs(R.st[k - 1])
Now == Fs(St)
(* where a name leads                                                        *)
Lead1(n) == IF Was[n].t = "link" THEN Was[n].to ELSE n
Target(n) == LET y == Lead1(Lead1(Lead1(n))) IN IF Was[y].t = "link" THEN n ELSE y
DirOf(n) == R.dirs[SelectInSeq(R.dirs, LAMBDA e : e[1] = n)][2]
InFile(n) == IsFile(Was[DirOf(n)]) \/ IsFile(Was[DirOf(DirOf(n))])     \* as if it were a directory
File(n) == LET y == Target(n) IN
           IF Was[y].t = "link" \/ (IsAbsent(Was[y]) /\ InFile(y)) THEN [Was[n] EXCEPT !.t = "other"] ELSE Was[y]
Read(n) == R.cs[File(n).c]

Init == i \in 1..Len(Recs) /\ k = 2 /\ at = "op" /\ did = "" /\ s = Start
Op(o) == at = "op" /\ k <= Len(R.st) /\ St.op = o
Done(letter) == /\ k' = k + 1 /\ at' = "op" /\ did' = did \o letter /\ s' = Start /\ UNCHANGED i
(* a run that does not do everything says so                                 *)
Fails == St.rc # 0 /\ St.said /\ Unchanged(Was, Now)

Edit == Op("edit") /\ Done("w")
Usage == Op("usage") /\ Fails /\ Done("u")

----------------------------------------------------------------------------
FileIs(n) == IsFile(File(n)) /\ CanRead(File(n), R.u)
TextIs(n) == FileIs(n) /\ Read(n).x
AbsentIs(n) == IsAbsent(File(n))
K == Kind(St.b, St.a, FileIs, TextIs, AbsentIs)
DiffFails == Op("diff") /\ K \in {"error", "notfound"} /\ Fails /\ Done("e")
DiffIs(kind) == Op("diff") /\ K = kind /\ St.v.kind = kind /\ St.rc = 0 /\ Unchanged(Was, Now)
DiffText == /\ DiffIs("TextChange") /\ St.v.bp = St.bn /\ St.v.ap = St.an
            /\ LeadsTo(Read(St.b).l, Read(St.a).l, St.v.cl) = TRUE
            /\ HasContext(Read(St.b).l, Read(St.a).l, St.v.cl, St.c) = TRUE
            /\ Done("t")
DiffBytes == /\ DiffIs("ByteChange") /\ St.v.bp = St.bn /\ St.v.ap = St.an
             /\ LeadsTo(Read(St.b).d, Read(St.a).d, St.v.cl) = TRUE
             /\ Done("y")
DiffAdd == /\ \E w \in {"TextAdd", "ByteAdd"} : DiffIs(w)
           /\ St.v.path = St.bn /\ St.v.content = Read(St.a).d /\ Done("a")
DiffRemove == /\ \E w \in {"TextRemove", "ByteRemove"} : DiffIs(w)
              /\ St.v.path = St.bn /\ St.v.content = Read(St.b).d /\ Done("b")

----------------------------------------------------------------------------
W == Wants(St.v, St.rev)
Patch(w) == Op("patch") /\ W = w
Malformed == Patch("nothing") /\ Fails /\ Done("m")

NoTarget == /\ Patch("change")
            /\ ~FileIs(St.n) \/ (FileIs(St.n) /\ Word(St.v) = "text" /\ ~Read(St.n).x)
            /\ Fails /\ Done("0")
(* where no new file can be made it may or may not be possible to go on      *)
Denied == /\ Patch("change") /\ FileIs(St.n) /\ Fails /\ Done("d")
          /\ ~CanChange(Was[St.dir], R.u) \/ ~CanChange(Was[DirOf(Target(St.n))], R.u)
BeginText == /\ Patch("change") /\ Word(St.v) = "text" /\ TextIs(St.n)
             /\ at' = "text" /\ s' = Start /\ UNCHANGED <<i, k, did>>
BeginBytes == /\ Patch("change") /\ Word(St.v) = "bytes" /\ FileIs(St.n)
              /\ at' = "bytes" /\ s' = Start /\ UNCHANGED <<i, k, did>>
TextClump == at = "text" /\ ClumpStep(Read(St.n).l, Dir(St.v.cl, St.rev)) /\ UNCHANGED <<i, k, at, did>>
ByteClump == at = "bytes" /\ B!ClumpStep(Read(St.n).d, B!Dir(St.v.cl, St.rev)) /\ UNCHANGED <<i, k, at, did>>
(* a link to a file is replaced, or the file it leads to                     *)
FileReplaced(Is(_)) ==
    \/ Replaced([Was EXCEPT ![St.n] = File(St.n)], Now, St.n, Is)
    \/ Was[St.n].t = "link" /\ Replaced(Was, Now, Target(St.n), Is)
Ended == s.k = Len(St.v.cl) /\ ((St.rc = 0) <=> (s.st[5] = 0)) /\ (St.rc # 0 => St.said)
PatchText == /\ at = "text" /\ Ended
             /\ FileReplaced(LAMBDA c : R.cs[c].x /\ R.cs[c].l = Result(Read(St.n).l))
             /\ Done(IF s.st[5] = 0 THEN "T" ELSE "X")
PatchBytes == /\ at = "bytes" /\ Ended
              /\ FileReplaced(LAMBDA c : R.cs[c].d = B!Result(Read(St.n).d))
              /\ Done(IF s.st[5] = 0 THEN "Y" ELSE "Z")

Creates == /\ Patch("create") /\ IsAbsent(Was[St.n]) /\ CanChange(Was[St.dir], R.u)
           /\ St.rc = 0 /\ Created(Was, Now, St.n, LAMBDA c : R.cs[c].d = St.v.content) /\ Done("C")
CreateRefused == /\ Patch("create") /\ (~IsAbsent(Was[St.n]) \/ ~CanChange(Was[St.dir], R.u))
                 /\ Fails /\ Done("c")
IsThing(e) == IsFile(e) \/ e.t = "link"
Deletes == /\ Patch("delete") /\ IsThing(Was[St.n]) /\ CanChange(Was[St.dir], R.u)
           /\ St.rc = 0 /\ Deleted([Was EXCEPT ![St.n].t = "file"], Now, St.n) /\ Done("R")
DeleteRefused == /\ Patch("delete") /\ (~IsThing(Was[St.n]) \/ ~CanChange(Was[St.dir], R.u))
                 /\ Fails /\ Done("r")

Accept == at = "op" /\ k = Len(R.st) + 1 /\ PrintT(<<"ACC", i, did>>) /\ at' = "end" /\ UNCHANGED <<i, k, did, s>>
Next == Edit \/ Usage \/ DiffFails \/ DiffText \/ DiffBytes \/ DiffAdd \/ DiffRemove
        \/ Malformed \/ NoTarget \/ Denied \/ BeginText \/ BeginBytes \/ TextClump \/ ByteClump
        \/ PatchText \/ PatchBytes \/ Creates \/ CreateRefused \/ Deletes \/ DeleteRefused \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
