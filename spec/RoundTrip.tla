------------------------------ MODULE RoundTrip ------------------------------
(* Design model for C04 and C05: the diff of every two small files, made     *)
(* with any right choice of common runs, applied to the file it was made     *)
(* from and in reverse to the other.                                         *)
EXTENDS ApplyText, TLC
CONSTANTS ITEMS, MAXLEN, CONTEXTS
D == INSTANCE Clumps
VARIABLES b, a, cs, dir
vars == <<b, a, cs, dir, s>>

(* every change list that a right matching may come up with: any set of      *)
(* uncrossed common runs                                                     *)
RECURSIVE AllRuns(_)
AllRuns(r) ==
    LET L == D!LongestRuns(b, a, r) IN
    IF L = {} THEN {{}}
    ELSE UNION {{{x} \cup y \cup z : y \in AllRuns(<<r[1], x[1], r[3], x[2]>>),
                                     z \in AllRuns(<<x[1] + x[3], r[2], x[2] + x[3], r[4]>>)} : x \in L}

Init ==
    /\ b \in SeqsUpTo(ITEMS, MAXLEN) /\ a \in SeqsUpTo(ITEMS, MAXLEN)
    /\ \E c \in CONTEXTS, S \in AllRuns(<<0, Len(b), 0, Len(a)>>) :
         cs = D!StoredClumps(b, a, D!ChangesOfRuns(b, a, S), c)
    /\ dir = 1 /\ s = Start
File == IF dir = 1 THEN b ELSE a
Other == IF dir = 1 THEN a ELSE b
Step == ClumpStep(File, Dir(cs, dir = 2)) /\ UNCHANGED <<b, a, cs, dir>>
Turn == dir = 1 /\ s.k = Len(cs) /\ dir' = 2 /\ s' = Start /\ UNCHANGED <<b, a, cs>>
Next == Step \/ Turn
Spec == Init /\ [][Next]_vars

AllClean == s.st = <<s.k, 0, 0, 0, 0>>
Reproduces == s.k = Len(cs) => s.out \o Rng(File, s.pos, Len(File)) = Other
NothingToDo == (cs = <<>>) <=> (b = a)
KnownApplied == s.k = 0 => AlreadyApplied(Other, Dir(cs, dir = 2))
=============================================================================
