----------------------------- MODULE ByteMachine -----------------------------
(* Design model for C10: every byte diff of two small sequences applied to   *)
(* every small file in both directions.                                      *)
EXTENDS ApplyBytes, TLC
CONSTANTS ITEMS, MAXLEN, MAXFILE, CONTEXTS
D == INSTANCE Clumps
VARIABLES P, cs, marks
vars == <<P, cs, marks, s>>

Init ==
    /\ P \in SeqsUpTo(ITEMS, MAXFILE)
    /\ \E b \in SeqsUpTo(ITEMS, MAXLEN), a \in SeqsUpTo(ITEMS, MAXLEN), c \in CONTEXTS, rev \in BOOLEAN :
         b # a /\ cs = Dir(D!StoredClumps(b, a, D!SomeChanges(b, a), c), rev)
    /\ marks = <<>> /\ s = Start
(* marks: the half open ranges of P replaced, in order                       *)
Next == /\ ClumpStep(P, cs)
        /\ marks' = IF s'.st[1] > s.st[1]
                    THEN Append(marks, <<s.k + 1, cs[s.k + 1].bs, cs[s.k + 1].bs + Len(cs[s.k + 1].b)>>) ELSE marks
        /\ UNCHANGED <<P, cs>>
Spec == Init /\ [][Next]_vars

(* P with the marked ranges replaced                                         *)
RECURSIVE Rewritten(_, _)
Rewritten(ms, pos) ==
    IF ms = <<>> THEN Rng(P, pos, Len(P))
    ELSE LET m == Head(ms) IN Rng(P, pos, m[2]) \o cs[m[1]].a \o Rewritten(Tail(ms), m[3])
Finished == s.k = Len(cs)
Exactly == Finished => Result(P) = Rewritten(marks, 0)
OldWasThere == \A n \in 1..Len(marks) : Rng(P, marks[n][2], marks[n][3]) = cs[marks[n][1]].b
NoOverlap == \A n \in 1..(Len(marks) - 1) : marks[n][3] <= marks[n + 1][2]
CountedOnce == SumSeq(s.st) = s.k /\ s.st[1] = Len(marks)
KnownApplied == (Finished /\ s.st[3] = Len(cs)) => AlreadyApplied(P, cs) /\ Result(P) = P
=============================================================================
