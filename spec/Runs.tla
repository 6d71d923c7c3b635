--------------------------------- MODULE Runs ---------------------------------
(* Runs of pw_patch and pw_diff at the same time. What a run does to the     *)
(* files takes effect at once, in a few steps:                               *)
(*   a change reads its target and later replaces it, whole;                 *)
(*   a creation makes a file that is not there; a deletion removes one;      *)
(*   a diff reads its two files, in any order.                               *)
(* fs is a function from names to entries [t, m, c] as in PatchFs, ps a      *)
(* function from runs to [at, e, f, rc]: how far it is ("new", "read",       *)
(* "end"), what it has read, and its exit status.                            *)
EXTENDS Base
VARIABLES fs, ps

Nothing == [t |-> "unread", m |-> 0, c |-> 0]
NewRun == [at |-> "new", e |-> Nothing, f |-> Nothing, rc |-> 0]
Is(j, at) == ps[j].at = at
Ends(j, rc) == ps' = [ps EXCEPT ![j].at = "end", ![j].rc = rc]
AnyMode == -1

(* Can: is it a file that the patch can be applied to?                       *)
ReadsTarget(j, n, Can(_)) ==
    /\ Is(j, "new") /\ Can(fs[n])
    /\ ps' = [ps EXCEPT ![j].at = "read", ![j].e = fs[n]] /\ UNCHANGED fs
NoTarget(j, n, Can(_)) == Is(j, "new") /\ ~Can(fs[n]) /\ Ends(j, 1) /\ UNCHANGED fs
(* to: the content it comes to, ok: without conflicts                        *)
Replaces(j, n, to, ok) ==
    /\ Is(j, "read")
    /\ fs' = [fs EXCEPT ![n] = [ps[j].e EXCEPT !.c = to]]
    /\ Ends(j, IF ok THEN 0 ELSE 1)
(* its target is not what it was any more: it may give up                    *)
GivesUp(j, n) == Is(j, "read") /\ fs[n] # ps[j].e /\ Ends(j, 1) /\ UNCHANGED fs

Creates(j, n, c) ==
    /\ Is(j, "new") /\ fs[n].t = "absent"
    /\ fs' = [fs EXCEPT ![n] = [t |-> "file", m |-> AnyMode, c |-> c]] /\ Ends(j, 0)
CreateRefused(j, n) == Is(j, "new") /\ fs[n].t # "absent" /\ Ends(j, 1) /\ UNCHANGED fs
Deletes(j, n) ==
    /\ Is(j, "new") /\ fs[n].t = "file"
    /\ fs' = [fs EXCEPT ![n] = [t |-> "absent", m |-> 0, c |-> 0]] /\ Ends(j, 0)
DeleteRefused(j, n) == Is(j, "new") /\ fs[n].t # "file" /\ Ends(j, 1) /\ UNCHANGED fs

ReadsOld(j, n) ==
    /\ Is(j, "new") /\ ps[j].e = Nothing
    /\ ps' = [ps EXCEPT ![j].e = fs[n]] /\ UNCHANGED fs
ReadsNew(j, n) ==
    /\ Is(j, "new") /\ ps[j].f = Nothing
    /\ ps' = [ps EXCEPT ![j].f = fs[n]] /\ UNCHANGED fs
WritesDiff(j) ==
    /\ Is(j, "new") /\ ps[j].e # Nothing /\ ps[j].f # Nothing
    /\ Ends(j, 0) /\ UNCHANGED fs
=============================================================================
