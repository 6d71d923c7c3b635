---------------------------- MODULE ApplyMachine ----------------------------
(* Design model of applying text diffs: every diff of two small files, with  *)
(* every context size, applied to every small file in both directions.       *)
EXTENDS ApplyText, TLC
CONSTANTS ITEMS, MAXLEN, MAXFILE, CONTEXTS, REVERSED
INSTANCE Clumps

VARIABLES P, cs
vars == <<P, cs, s>>

Text(x) == [n \in 1..Len(x) |-> ToString(x[n]) \o "\n"]
NoEol(x) == [n \in 1..Len(x) |-> IF n < Len(x) THEN ToString(x[n]) \o "\n" ELSE ToString(x[n])]
Files(n) == {Text(x) : x \in SeqsUpTo(ITEMS, n)} \cup {NoEol(x) : x \in SeqsUpTo(ITEMS, n)}

Init ==
    /\ P \in Files(MAXFILE)
    /\ \E b \in Files(MAXLEN), a \in Files(MAXLEN), c \in CONTEXTS, rev \in REVERSED :
         b # a /\ cs = Dir(StoredClumps(b, a, SomeChanges(b, a), c), rev)
    /\ s = Start
Next == ClumpStep(P, cs) /\ UNCHANGED <<P, cs>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == s.k = Len(cs)
Raw == s.out \o Rng(P, s.pos, Len(P))
X == cs[s.k + 1]
Due == Decide(P, X, NextOf(cs, s.k + 1), s.off, s.pos)
LastKind == SubSeq(s.kinds, Len(s.kinds), Len(s.kinds))

----------------------------------------------------------------------------
(* C06: the result so far is the result of some legal application            *)
RECURSIVE Legal(_, _, _, _)
Legal(out, k, pos, o) ==
    \/ k = s.k /\ Rng(P, pos, Len(P)) = Rng(out, o, Len(out))
    \/ pos < Len(P) /\ o < Len(out) /\ P[pos + 1] = out[o + 1] /\ Legal(out, k, pos + 1, o + 1)
    \/ /\ k < s.k
       /\ LET x == cs[k + 1] IN
          \/ \E sr \in 0..x.c0, er \in 0..x.c1 :
               LET n == Cut(x.a, sr, er) IN
               /\ FitsAt(P, x.b, pos - sr, sr, er) /\ Match(out, o, n)
               /\ Legal(out, k + 1, pos + Len(x.b) - sr - er, o + Len(n))
          \/ \E sr \in 0..x.c0, er \in 0..x.c1 :
               LET n == Cut(x.a, sr, er) IN
               /\ FitsAt(P, x.a, pos - sr, sr, er) /\ Match(out, o, n)
               /\ Legal(out, k + 1, pos + Len(n), o + Len(n))
          \/ LET n == OwnLine(SubSeq(out, 1, o)) \o ConflictBlock(x) IN
             Match(out, o, n) /\ Legal(out, k + 1, pos, o + Len(n))
C06_Placed == Legal(Raw, 0, 0, 0)
C06_NoOverlap == s.pos <= Len(P)
C06_LinesKept ==       \* with conflicts and already applied clumps only, nothing is lost
    (s.st[1] + s.st[2] = 0 /\ s.st[5] = 0) => Raw = P
C06_Completes == <>Finished

----------------------------------------------------------------------------
(* C07, said with sets of places instead of a search                         *)
Start0(x) == x.bs + s.off
FreeAt(x, p, r) ==
    /\ FitsAt(P, x.b, p, Lead(x, r), Trail(x, r))
    /\ p + Lead(x, r) >= s.pos
Reductions(x) == {0} \cup 1..(MaxOf(x.c0, x.c1) - 1)
Window(x) == {p \in -6..(2 * MAXFILE + 6) :
    \/ p < Start0(x) /\ p >= s.pos
    \/ p = Start0(x)
    \/ p > Start0(x) /\ p <= NotAfter(P, x, NextOf(cs, s.k + 1), s.off)}
Places(x) == {p \in Window(x) : \E r \in Reductions(x) : FreeAt(x, p, r)}
Dist(x, p) == IF p < Start0(x) THEN 2 * (Start0(x) - p) ELSE IF p = Start0(x) THEN 0 ELSE 2 * (p - Start0(x)) + 1

C07_Clean == (~Finished /\ FreeAt(X, Start0(X), 0)) => Due.kind = "ApplyExpected" /\ Due.r = 0
C07_Nearest == ~Finished =>
    IF Places(X) = {} THEN Due.kind \notin {"ApplyExpected", "ApplyNearby"}
    ELSE /\ Due.kind = (IF Start0(X) \in Places(X) THEN "ApplyExpected" ELSE "ApplyNearby")
         /\ \A p \in Places(X) : Dist(X, Start0(X) + Due.d) <= Dist(X, p)
         /\ Start0(X) + Due.d \in Places(X)
C07_LeastReduction == (~Finished /\ Due.kind \in {"ApplyExpected", "ApplyNearby"}) =>
    /\ FreeAt(X, Start0(X) + Due.d, Due.r)
    /\ \A r \in Reductions(X) : r < Due.r => ~FreeAt(X, Start0(X) + Due.d, r)

----------------------------------------------------------------------------
C08_UnchangedThere ==
    [][s'.st[3] + s'.st[4] > s.st[3] + s.st[4] =>
        s'.out \o Rng(P, s'.pos, Len(P)) = s.out \o Rng(P, s.pos, Len(P))]_vars
C08_OnlyIfNotApplicable ==
    (~Finished /\ Due.kind \in {"AlreadyExpected", "AlreadyNearby"}) => Places(X) = {}
C08_AllFoundNothingChanged ==
    (Finished /\ s.st[3] + s.st[4] = Len(cs)) => Result(P) = Glue(P)
(* a clump is never a conflict while its new lines are there                 *)
C08_NotFailedIfThere ==
    (~Finished /\ Due.kind = "Conflict") =>
        LET y == Rev(X) IN ~\E r \in Reductions(y) : FreeAt(y, y.bs + s.off, r)

C09_CountedOnce == SumSeq(s.st) = s.k /\ Len(s.kinds) = s.k
C09_Block ==
    [][s'.st[5] > s.st[5] =>
        /\ s'.pos = s.pos /\ s'.off = s.off
        /\ s'.out = s.out \o OwnLine(s.out) \o ConflictBlock(cs[s.k + 1])]_vars
LinesLike(m) == Cardinality({n \in 1..Len(Result(P)) : Result(P)[n] = m})
C09_MarkersOnOwnLine == Finished =>
    \A m \in {"<<<<<<<\n", "=======\n", ">>>>>>>\n"} : LinesLike(m) = s.st[5]
=============================================================================
