-------------------------------- MODULE Base --------------------------------
(* Sequences are 1-based in TLA+; all positions in the specification are     *)
(* 0-based and ranges half open, as in the implementation.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MinOf(x, y) == IF x <= y THEN x ELSE y
MaxOf(x, y) == IF x >= y THEN x ELSE y

(* items i .. j-1 of s *)
Rng(s, i, j) == SubSeq(s, i + 1, j)

(* the items of x are those of s from position p on *)
Match(s, p, x) ==
    /\ p >= 0
    /\ p + Len(x) <= Len(s)
    /\ \A n \in 1..Len(x) : s[p + n] = x[n]

Items(s) == {s[n] : n \in 1..Len(s)}

(* all sequences over S of length at most n *)
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}

Flatten(ss) == FlattenSeq(ss)

(* text lines are strings *)
EndsEol(l) == Len(l) > 0 /\ SubSeq(l, Len(l), Len(l)) = "\n"
WithEol(l) == IF EndsEol(l) THEN l ELSE l \o "\n"

(* what a list of lines looks like once written to a file and read again: a  *)
(* line without end of line is glued to the line that follows it             *)
RECURSIVE Glue(_)
Glue(ls) ==
    LET n == SelectInSeq(ls, LAMBDA l : ~EndsEol(l)) IN
    IF n = 0 \/ n = Len(ls) THEN ls
    ELSE SubSeq(ls, 1, n - 1) \o Glue(<<ls[n] \o ls[n + 1]>> \o SubSeq(ls, n + 2, Len(ls)))

(* the least n in lo..hi for which Test holds, or lo - 1 if there is none    *)
LeastIn(lo, hi, Test(_)) ==
    LET n == SelectInSeq([m \in 1..(hi - lo + 1) |-> lo + m - 1], Test)
    IN  lo - 1 + n

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

IsPrefixOf(x, y) == Len(x) <= Len(y) /\ \A n \in 1..Len(x) : x[n] = y[n]
=============================================================================
