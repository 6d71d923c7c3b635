------------------------------- MODULE PatchFs -------------------------------
(* A file system with diffs being made and patches applied to it.            *)
(* It is a function from names to entries [t, m, c]: t is "file", "dir",     *)
(* "absent" or "other", m the mode, c the content of a file.                 *)
(* A diff is what Diff views of it are (see Document), or [kind |->          *)
(* "refused"] if the document is no diff.                                    *)
EXTENDS ApplyText, Kinds
B == INSTANCE ApplyBytes

Bit(m, b) == (m \div b) % 2 = 1
IsFile(e) == e.t = "file"
IsAbsent(e) == e.t = "absent"
(* u: is the user one that permissions apply to?                             *)
CanRead(e, u) == IsFile(e) /\ (u => Bit(e.m, 256))
CanChange(dir, u) == dir.t = "dir" /\ (u => Bit(dir.m, 128))

Others(fs, n) == [x \in DOMAIN fs \ {n} |-> fs[x]]

(* what a run may come to                                                    *)
Unchanged(fs, gs) == gs = fs
Replaced(fs, gs, n, Is(_)) ==
    /\ Others(gs, n) = Others(fs, n)
    /\ IsFile(fs[n]) /\ IsFile(gs[n]) /\ gs[n].m = fs[n].m /\ Is(gs[n].c)
Created(fs, gs, n, Is(_)) ==
    /\ Others(gs, n) = Others(fs, n)
    /\ IsAbsent(fs[n]) /\ IsFile(gs[n]) /\ Is(gs[n].c)
Deleted(fs, gs, n) ==
    /\ Others(gs, n) = Others(fs, n)
    /\ IsFile(fs[n]) /\ IsAbsent(gs[n])

(* what a diff asks for in a direction                                       *)
IsChange(v) == v.kind \in {"TextChange", "ByteChange"}
Word(v) == IF v.kind \in {"TextChange", "TextAdd", "TextRemove"} THEN "text" ELSE "bytes"
Wants(v, rev) ==
    IF v.kind = "refused" THEN "nothing"
    ELSE IF IsChange(v) THEN "change"
    ELSE IF (v.kind \in {"TextAdd", "ByteAdd"}) # rev THEN "create" ELSE "delete"

(* the clumps of a diff of b and a lead from the one to the other            *)
OldEnd(b, cl, n) == IF n = 0 THEN 0 ELSE cl[n].bs + Len(cl[n].b)
NewEnd(a, cl, n) == IF n = 0 THEN 0 ELSE cl[n].as + Len(cl[n].a)
LeadsTo(b, a, cl) ==
    /\ \A n \in 1..Len(cl) : Match(b, cl[n].bs, cl[n].b) /\ Match(a, cl[n].as, cl[n].a)
    /\ \A n \in 0..Len(cl) :
         LET x == OldEnd(b, cl, n)
             y == NewEnd(a, cl, n)
             x2 == IF n = Len(cl) THEN Len(b) ELSE cl[n + 1].bs
             y2 == IF n = Len(cl) THEN Len(a) ELSE cl[n + 1].as
         IN x <= x2 /\ y <= y2 /\ Rng(b, x, x2) = Rng(a, y, y2)
(* with c lines of context, or what there is                                 *)
HasContext(b, a, cl, c) ==
    \A n \in 1..Len(cl) : LET x == cl[n] IN
        /\ x.c0 <= c /\ x.c1 <= c
        /\ x.c0 < c => x.bs = 0 \/ x.as = 0
        /\ x.c1 < c => OldEnd(b, cl, n) = Len(b) \/ NewEnd(a, cl, n) = Len(a)
=============================================================================
