------------------------------- MODULE TraceAny -------------------------------
(* C24: documents that need not come from any pair of files, loaded and      *)
(* applied. Records hold the document as a tree, what was loaded (v), and    *)
(* for changes the file p, the result out, the counts st and whether the     *)
(* diff was said to be already applied (aa). Text may go anywhere that a     *)
(* legal application can put it; bytes only where they are recorded.         *)
EXTENDS Explain, Document, TLC, Json, IOUtils
VARIABLES i, at, n, s            \* n: clumps replaced, found, in conflict
vars == <<i, at, n, s, e>>
B == INSTANCE ApplyBytes

Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
Text == R.v.kind = "TextChange"
Cls == Dir(R.v.cl, R.rev)
BCls == B!Dir(R.v.cl, R.rev)

Init == i \in 1..Len(Recs) /\ at = "document" /\ n = <<0, 0, 0>> /\ e = EStart /\ s = B!Start

(* numbers so large that it is not said whether they can be positions        *)
Refuse == /\ at = "document" /\ R.v.kind = "refused" /\ (R.free \/ ~WellFormed(R.tree)) = TRUE
          /\ at' = "done" /\ UNCHANGED <<i, n, s, e>>
Load == /\ at = "document" /\ R.v.kind # "refused"
        /\ WellFormed(R.tree) = TRUE /\ Same(R.v, Loaded(R.tree)) = TRUE
        /\ at' = CASE Text -> "text" [] R.v.kind = "ByteChange" -> "bytes" [] OTHER -> "done"
        /\ UNCHANGED <<i, n, s, e>>

Counted(m) == n' = [n EXCEPT ![m] = @ + 1]
Copy    == at = "text" /\ CopyLine(R.p, R.out) /\ UNCHANGED <<i, at, n, s>>
Replace == at = "text" /\ ReplaceHere(R.p, R.out, Cls) /\ Counted(1) /\ UNCHANGED <<i, at, s>>
Find    == at = "text" /\ FoundHere(R.p, R.out, Cls) /\ Counted(2) /\ UNCHANGED <<i, at, s>>
Fail    == at = "text" /\ ConflictHere(R.p, R.out, Cls) /\ Counted(3) /\ UNCHANGED <<i, at, s>>
(* said to be applied only if the new lines of every clump are somewhere     *)
Somewhere(x) == \E p \in 0..Len(R.p), sr \in 0..x.c0, er \in 0..x.c1 : FitsAt(R.p, x.a, p - sr, sr, er)
Applied == /\ at = "text" /\ Explained(R.p, R.out, Cls) = TRUE
           /\ n = <<R.st[1] + R.st[2], R.st[3] + R.st[4], R.st[5]>>
           /\ (R.aa => \A m \in 1..Len(Cls) : Somewhere(Cls[m])) = TRUE
           /\ at' = "done" /\ UNCHANGED <<i, n, s, e>>

ByteStep == at = "bytes" /\ B!ClumpStep(R.p, BCls) /\ UNCHANGED <<i, at, n, e>>
ByteDone == /\ at = "bytes" /\ s.k = Len(BCls) /\ B!Result(R.p) = R.out /\ s.st = R.st
            /\ R.aa = B!AlreadyApplied(R.p, BCls)
            /\ at' = "done" /\ UNCHANGED <<i, n, s, e>>

Accept == /\ at = "done" /\ PrintT(<<"ACC", i, R.v.kind, n>>) /\ at' = "end" /\ UNCHANGED <<i, n, s, e>>
Next == Refuse \/ Load \/ Copy \/ Replace \/ Find \/ Fail \/ Applied \/ ByteStep \/ ByteDone \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
