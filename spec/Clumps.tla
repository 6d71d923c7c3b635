------------------------------- MODULE Clumps -------------------------------
(* Grouping changes into clumps with context. A clump is                     *)
(* [bs, be, as, ae, c0, c1]: its ranges and its context lengths; f and l are  *)
(* the indices of its first and last change.                                 *)
EXTENDS Changes

IsChange(ch, n) == ch[n].t # "N"
RunLen(c) == c.be - c.bs

(* The clumps by definition: two changes that follow each other are in one   *)
(* clump exactly when fewer than 2c unchanged items separate them; context   *)
(* is c items or, at the ends of the sequences, what there is.               *)
StartsClump(ch, c, n) ==
    /\ IsChange(ch, n)
    /\ \/ n = 1
       \/ n = 2 /\ ~IsChange(ch, 1)
       \/ n > 2 /\ ~IsChange(ch, n - 1) /\ RunLen(ch[n - 1]) >= 2 * c
EndsClump(ch, c, n) ==
    /\ IsChange(ch, n)
    /\ \/ n = Len(ch)
       \/ n = Len(ch) - 1 /\ ~IsChange(ch, n + 1)
       \/ n < Len(ch) - 1 /\ ~IsChange(ch, n + 1) /\ RunLen(ch[n + 1]) >= 2 * c

ClumpFrom(ch, c, f, l) ==
    LET lead  == IF f = 1 THEN 0 ELSE MinOf(c, RunLen(ch[f - 1]))
        trail == IF l = Len(ch) THEN 0 ELSE MinOf(c, RunLen(ch[l + 1]))
    IN [bs |-> ch[f].bs - lead, be |-> ch[l].be + trail,
        as |-> ch[f].as - lead, ae |-> ch[l].ae + trail,
        c0 |-> lead, c1 |-> trail, f |-> f, l |-> l]

RECURSIVE ClumpsFrom(_, _, _)
ClumpsFrom(ch, c, n) ==
    IF n > Len(ch) THEN <<>>
    ELSE IF StartsClump(ch, c, n)
    THEN LET l == CHOOSE m \in n..Len(ch) :
                    EndsClump(ch, c, m) /\ \A k \in n..(m - 1) : ~EndsClump(ch, c, k)
         IN <<ClumpFrom(ch, c, n, l)>> \o ClumpsFrom(ch, c, l + 1)
    ELSE ClumpsFrom(ch, c, n + 1)

ClumpsOf(ch, c) == ClumpsFrom(ch, c, 1)

Cores(ch, x) == SelectSeq(SubSeq(ch, x.f, x.l), LAMBDA c : c.t # "N")

(* What a clump holds: the form in which it is stored and applied            *)
Stored(b, a, x) ==
    [bs |-> x.bs, b |-> Rng(b, x.bs, x.be), as |-> x.as, a |-> Rng(a, x.as, x.ae),
     c0 |-> x.c0, c1 |-> x.c1]

StoredClumps(b, a, ch, c) ==
    LET xs == ClumpsOf(ch, c) IN [n \in 1..Len(xs) |-> Stored(b, a, xs[n])]

----------------------------------------------------------------------------
(* The requirements on clumps, independent of how they are computed          *)

InOrder(xs) == \A n \in 1..(Len(xs) - 1) : xs[n].be <= xs[n+1].bs /\ xs[n].ae <= xs[n+1].as

EachChangeOnce(ch, xs) ==
    \A n \in 1..Len(ch) : IsChange(ch, n) =>
        Cardinality({m \in 1..Len(xs) :
            xs[m].bs <= ch[n].bs /\ ch[n].be <= xs[m].be /\
            xs[m].as <= ch[n].as /\ ch[n].ae <= xs[m].ae}) >= 1
        /\ Cardinality({m \in 1..Len(xs) :
            \/ ch[n].be > ch[n].bs /\ xs[m].bs < ch[n].be /\ ch[n].bs < xs[m].be
            \/ ch[n].ae > ch[n].as /\ xs[m].as < ch[n].ae /\ ch[n].as < xs[m].ae}) = 1

ContextIsCommon(b, a, xs) ==
    \A n \in 1..Len(xs) : LET x == xs[n] IN
        /\ Rng(b, x.bs, x.bs + x.c0) = Rng(a, x.as, x.as + x.c0)
        /\ Rng(b, x.be - x.c1, x.be) = Rng(a, x.ae - x.c1, x.ae)

ContextSize(b, a, c, xs) ==
    \A n \in 1..Len(xs) : LET x == xs[n] IN
        /\ x.c0 <= c /\ x.c1 <= c
        /\ x.c0 < c => x.bs = 0 \/ x.as = 0
        /\ x.c1 < c => x.be = Len(b) \/ x.ae = Len(a)
=============================================================================
