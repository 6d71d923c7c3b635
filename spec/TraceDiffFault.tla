---------------------------- MODULE TraceDiffFault ----------------------------
(* C17: runs of pw_diff of the same two files with something happening at    *)
(* one file operation. docs are the documents written, as diffs, and a run's v  *)
(* is the number of what it wrote.                                           *)
EXTENDS PatchFs, TLC, Json, IOUtils
VARIABLES
    i, k, did,
    was,        \* the files, all the time
    good        \* which of the documents are whole diffs of the two files; 0: not known yet
vars == <<i, k, did, was, good, s>>
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
Run == R.runs[k]
Entry(fs, n) ==
    LET m == SelectInSeq(fs, LAMBDA e : e.n = n) IN
    IF m = 0 THEN [t |-> "absent", m |-> 0, c |-> 0] ELSE [t |-> fs[m].t, m |-> fs[m].m, c |-> fs[m].c]
Fs(names, list) == [n \in Items(names) |-> Entry(list, n)]
Read(n) == R.cs[was[n].c]
FileIs(n) == IsFile(was[n]) /\ CanRead(was[n], R.u)
TextIs(n) == FileIs(n) /\ Read(n).x
AbsentIs(n) == IsAbsent(was[n])
K == Kind(R.b, R.a, FileIs, TextIs, AbsentIs)
Bytewise(kind) ==
    CASE kind = "TextChange" -> "ByteChange" [] kind = "TextAdd" -> "ByteAdd"
      [] kind = "TextRemove" -> "ByteRemove" [] OTHER -> kind
Whole(v) ==
    /\ v.kind \in {K, Bytewise(K)}
    /\ CASE v.kind = "TextChange" -> LeadsTo(Read(R.b).l, Read(R.a).l, v.cl) = TRUE
         [] v.kind = "ByteChange" -> LeadsTo(Read(R.b).d, Read(R.a).d, v.cl) = TRUE
         [] v.kind \in {"TextAdd", "ByteAdd"} -> v.content = Read(R.a).d
         [] v.kind \in {"TextRemove", "ByteRemove"} -> v.content = Read(R.b).d
         [] OTHER -> FALSE

Init == /\ i \in 1..Len(Recs) /\ k = 0 /\ did = "" /\ s = Start /\ good = {}
        /\ was = TLCEval(Fs(Recs[i].names, Recs[i].was))
Begin == /\ k = 0 /\ k' = 1 /\ good' = {n \in 1..Len(R.docs) : Whole(R.docs[n])}
         /\ UNCHANGED <<i, did, was, s>>
Ready == k \in 1..Len(R.runs) /\ Unchanged(was, Fs(R.names, Run.now))
Done(x) == k' = k + 1 /\ did' = did \o x /\ UNCHANGED <<i, was, good, s>>
Fails == Ready /\ Run.rc # 0 /\ Done("F")
Succeeds == Ready /\ Run.rc = 0 /\ Run.v \in good /\ Done("S")
Accept == k = Len(R.runs) + 1 /\ PrintT(<<"ACC", i, did>>) /\ k' = k + 1 /\ UNCHANGED <<i, did, was, good, s>>
Next == Begin \/ Fails \/ Succeeds \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
