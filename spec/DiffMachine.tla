---------------------------- MODULE DiffMachine ----------------------------
(* Design model of change generation and clumping.                          *)
(*                                                                          *)
(* Phase "match": a work list of pairs of sub ranges; each step takes the    *)
(* last pair, picks any one of its longest common runs, and adds the pairs   *)
(* to the left and to the right of it, as long as both their ranges have     *)
(* items. Phase "clump": the iterator over the changes with its stash.       *)
EXTENDS Clumps, TLC
CONSTANTS ITEMS, MAXLEN, CONTEXTS

VARIABLES b, a, c,           \* the two sequences and the context size
          phase,             \* "match", "clump", "done"
          work,              \* sequence of <<b0, b1, a0, a1>>
          runs,              \* set of runs found
          ch,                \* the changes
          pos,               \* iterator: next change
          stash,             \* iterator: tail of the run that ended the previous clump
          xs                 \* clumps produced

vars == <<b, a, c, phase, work, runs, ch, pos, stash, xs>>

Init ==
    /\ b \in SeqsUpTo(ITEMS, MAXLEN) /\ a \in SeqsUpTo(ITEMS, MAXLEN) /\ c \in CONTEXTS
    /\ phase = "match"
    /\ work = << <<0, Len(b), 0, Len(a)>> >>
    /\ runs = {} /\ ch = <<>> /\ pos = 1 /\ stash = <<>> /\ xs = <<>>

Side(r) == IF r[1] < r[2] /\ r[3] < r[4] THEN <<r>> ELSE <<>>

Split ==
    /\ phase = "match" /\ work # <<>>
    /\ LET r == work[Len(work)]
           rest == SubSeq(work, 1, Len(work) - 1)
           L == LongestRuns(b, a, r)
       IN \E x \in L :
            /\ runs' = runs \cup {x}
            /\ work' = rest \o Side(<<r[1], x[1], r[3], x[2]>>)
                            \o Side(<<x[1] + x[3], r[2], x[2] + x[3], r[4]>>)
    /\ UNCHANGED <<b, a, c, phase, ch, pos, stash, xs>>

Drop ==          \* nothing in common
    /\ phase = "match" /\ work # <<>>
    /\ LongestRuns(b, a, work[Len(work)]) = {}
    /\ work' = SubSeq(work, 1, Len(work) - 1)
    /\ UNCHANGED <<b, a, c, phase, runs, ch, pos, stash, xs>>

Generate ==
    /\ phase = "match" /\ work = <<>>
    /\ ch' = ChangesOfRuns(b, a, runs)
    /\ phase' = "clump"
    /\ UNCHANGED <<b, a, c, work, runs, pos, stash, xs>>

(* One call of the iterator: collects the changes of the next clump.         *)
(* acc is what has been collected so far.                                    *)
StartsTrimmed(r) == LET n == MinOf(c, r.be - r.bs) IN
    [t |-> "N", bs |-> r.be - n, be |-> r.be, as |-> r.ae - n, ae |-> r.ae]
EndsTrimmed(r) == LET n == MinOf(c, r.be - r.bs) IN
    [t |-> "N", bs |-> r.bs, be |-> r.bs + n, as |-> r.as, ae |-> r.as + n]

RECURSIVE Collect(_, _)
Collect(p, acc) ==
    IF p > Len(ch) THEN [acc |-> acc, pos |-> p, stash |-> <<>>]
    ELSE LET x == ch[p] IN
    IF x.t # "N" THEN Collect(p + 1, Append(acc, x))
    ELSE IF acc = <<>>
    THEN IF p < Len(ch) THEN Collect(p + 1, <<StartsTrimmed(x)>>) ELSE Collect(p + 1, acc)
    ELSE IF p = Len(ch)
    THEN [acc |-> Append(acc, EndsTrimmed(x)), pos |-> p + 1, stash |-> <<>>]
    ELSE IF RunLen(x) >= 2 * c
    THEN [acc |-> Append(acc, EndsTrimmed(x)), pos |-> p + 1, stash |-> <<StartsTrimmed(x)>>]
    ELSE Collect(p + 1, Append(acc, x))

NextClump ==
    /\ phase = "clump"
    /\ LET r == Collect(pos, stash) IN
       IF r.acc = <<>> THEN phase' = "done" /\ UNCHANGED <<pos, stash, xs>>
       ELSE /\ pos' = r.pos /\ stash' = r.stash /\ phase' = phase
            /\ LET f == Head(r.acc)  l == Last(r.acc) IN
               xs' = Append(xs, [bs |-> f.bs, be |-> l.be, as |-> f.as, ae |-> l.ae,
                                 c0 |-> IF f.t = "N" THEN RunLen(f) ELSE 0,
                                 c1 |-> IF l.t = "N" THEN RunLen(l) ELSE 0,
                                 cores |-> SelectSeq(r.acc, LAMBDA y : y.t # "N")])
    /\ UNCHANGED <<b, a, c, work, runs, ch>>

Next == Split \/ Drop \/ Generate \/ NextClump
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* Runs found and pairs still to be matched never overlap or cross           *)
Before(x, y) == x[1] + x[3] <= y[1] /\ x[2] + x[3] <= y[2]
RunsUncrossed == \A x, y \in runs : x = y \/ Before(x, y) \/ Before(y, x)
WorkClear == \A n \in 1..Len(work) : \A x \in runs :
    LET r == work[n] IN (x[1] + x[3] <= r[1] /\ x[2] + x[3] <= r[3]) \/ (r[2] <= x[1] /\ r[4] <= x[2])
RunsCommon == \A x \in runs : IsRun(b, a, <<0, Len(b), 0, Len(a)>>, x[1], x[2], x[3])

C01_EditScript == phase # "match" => IsEditScript(b, a, ch)
C01_EqualOnly == phase # "match" => ((\A n \in 1..Len(ch) : ch[n].t = "N") <=> b = a)
C02_Maximal == phase # "match" =>
    /\ Alternates(ch) /\ NothingCommonLeft(b, a, ch)
    /\ \A x \in LongestRuns(b, a, <<0, Len(b), 0, Len(a)>>) :
         \E n \in 1..Len(ch) : ch[n].t = "N" /\ RunLen(ch[n]) >= x[3]

C02_Length == \A n \in 1..Len(work) :     \* the ways to put it agree
    LET r == work[n]  m == LongestLength(b, a, r) IN
    (m > 0 => HasRun(b, a, r, m)) /\ ~HasRun(b, a, r, m + 1)
    /\ SparseLength(b, a, r) = DenseLength(b, a, r)

Plain(x) == [bs |-> x.bs, be |-> x.be, as |-> x.as, ae |-> x.ae, c0 |-> x.c0, c1 |-> x.c1]
C03_Clumps == phase = "done" =>
    LET ys == ClumpsOf(ch, c) IN
    /\ Len(xs) = Len(ys)
    /\ \A n \in 1..Len(xs) : Plain(xs[n]) = Plain(ys[n]) /\ xs[n].cores = Cores(ch, ys[n])
    /\ InOrder(xs) /\ EachChangeOnce(ch, xs)
    /\ ContextIsCommon(b, a, xs) /\ ContextSize(b, a, c, xs)

Terminates == <>(phase = "done")
=============================================================================
