------------------------------- MODULE Explain -------------------------------
(* Any legal application of a text diff, whatever the placement policy: a    *)
(* nondeterministic machine that reads the file P and a result Out line by   *)
(* line. A result that it cannot get through lost, duplicated, changed or    *)
(* invented lines.                                                           *)
(*   e = [k, pos, o, part]: clumps dealt with, lines of P dealt with, lines  *)
(*   of Out dealt with, and how many characters of the next line of Out      *)
(*   (lines written without end of line are glued to what follows).          *)
EXTENDS TextClumps

VARIABLE e
EStart == [k |-> 0, pos |-> 0, o |-> 0, part |-> 0]

(* place in Out after writing text l there, or <<>> if Out does not have it   *)
RECURSIVE WriteStr(_, _, _, _)
WriteStr(Out, l, o, part) ==
    IF l = "" THEN <<o, part>>
    ELSE IF o >= Len(Out) THEN <<>>
    ELSE IF part = 0 /\ Out[o + 1] = l THEN <<o + 1, 0>>
    ELSE LET L == Out[o + 1]
             m == Len(L) - part            \* what is left of the line
         IN IF Len(l) < m
            THEN IF SubSeq(L, part + 1, part + Len(l)) = l THEN <<o, part + Len(l)>> ELSE <<>>
            ELSE IF SubSeq(L, part + 1, Len(L)) = SubSeq(l, 1, m)
            THEN WriteStr(Out, SubSeq(l, m + 1, Len(l)), o + 1, 0) ELSE <<>>
RECURSIVE Writes(_, _, _, _, _)
Writes(Out, ls, n, o, part) ==
    IF n > Len(ls) THEN <<o, part>>
    ELSE LET w == WriteStr(Out, ls[n], o, part) IN
         IF w = <<>> THEN <<>> ELSE Writes(Out, ls, n + 1, w[1], w[2])

Write(Out, ls, k, pos) ==
    LET w == Writes(Out, ls, 1, e.o, e.part) IN
    w # <<>> /\ e' = [k |-> k, pos |-> pos, o |-> w[1], part |-> w[2]]

CopyLine(P, Out) ==
    e.pos < Len(P) /\ Write(Out, <<P[e.pos + 1]>>, e.k, e.pos + 1)

(* old lines, less some context, are here: the new ones take their place     *)
ReplaceHere(P, Out, cs) ==
    /\ e.k < Len(cs)
    /\ LET x == cs[e.k + 1] IN \E sr \in 0..x.c0, er \in 0..x.c1 :
        /\ FitsAt(P, x.b, e.pos - sr, sr, er) = TRUE
        /\ Write(Out, Cut(x.a, sr, er), e.k + 1, e.pos + Len(x.b) - sr - er)

(* new lines, less some context, are here: nothing changes                   *)
FoundHere(P, Out, cs) ==
    /\ e.k < Len(cs)
    /\ LET x == cs[e.k + 1] IN \E sr \in 0..x.c0, er \in 0..x.c1 :
        /\ FitsAt(P, x.a, e.pos - sr, sr, er) = TRUE
        /\ Write(Out, Cut(x.a, sr, er), e.k + 1, e.pos + Len(x.a) - sr - er)

ConflictHere(P, Out, cs) ==
    /\ e.k < Len(cs)
    /\ LET own == IF e.part > 0 \/ (e.o > 0 /\ ~EndsEol(Out[e.o])) THEN <<"\n">> ELSE <<>>
       IN Write(Out, own \o ConflictBlock(cs[e.k + 1]), e.k + 1, e.pos)

EStep(P, Out, cs) ==
    CopyLine(P, Out) \/ ReplaceHere(P, Out, cs) \/ FoundHere(P, Out, cs) \/ ConflictHere(P, Out, cs)

Explained(P, Out, cs) ==
    e.k = Len(cs) /\ e.pos = Len(P) /\ e.o = Len(Out) /\ e.part = 0
=============================================================================
