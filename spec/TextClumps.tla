------------------------------ MODULE TextClumps ------------------------------
(* Clumps of a text diff, where they fit and how a conflict looks.           *)
(*                                                                          *)
(* A clump is [bs, b, as, a, c0, c1]: old lines b expected at bs, new lines  *)
(* a expected at as, c0 leading and c1 trailing context lines. Applying in   *)
(* reverse is applying the clump with its sides exchanged.                   *)
EXTENDS Base

Rev(x) == [bs |-> x.as, b |-> x.a, as |-> x.bs, a |-> x.b, c0 |-> x.c0, c1 |-> x.c1]
Dir(cs, rev) == IF rev THEN [n \in 1..Len(cs) |-> Rev(cs[n])] ELSE cs

(* reduction r ignores r context lines at each end, or all there are there   *)
Lead(x, r)  == MinOf(r, x.c0)
Trail(x, r) == MinOf(r, x.c1)
Cut(ls, sr, er) == SubSeq(ls, sr + 1, Len(ls) - er)

FitsAt(P, ls, p, sr, er) ==
    /\ p + sr >= 0
    /\ p + Len(ls) - er <= Len(P)
    /\ \A n \in (sr + 1)..(Len(ls) - er) : P[p + n] = ls[n]

(* the least reduction with which the old lines are at p, or -1              *)
Fit(P, x, p) ==
    IF FitsAt(P, x.b, p, 0, 0) THEN 0
    ELSE LET m == MaxOf(x.c0, x.c1) - 1
             r == LeastIn(1, m, LAMBDA y : FitsAt(P, x.b, p, Lead(x, y), Trail(x, y)))
         IN IF r = 0 THEN -1 ELSE r

(* the same, but not over lines already dealt with                           *)
FreeFit(P, x, p, pos) ==
    LET r == Fit(P, x, p) IN IF r >= 0 /\ p + Lead(x, r) >= pos THEN r ELSE -1

(* how far forward to look                                                   *)
NotAfter(P, x, nx, off) ==
    (IF nx = <<>> THEN Len(P) ELSE nx[1].bs + off + x.c0) - (Len(x.b) - x.c0 - x.c1)

(* the nearest place other than the expected one: <<displacement, reduction>> *)
NearbyFit(P, x, nx, off, pos) ==
    LET start == x.bs + off
        back  == start - pos
        forth == NotAfter(P, x, nx, off) - start
        BackFit(i)  == IF i <= back THEN Fit(P, x, start - i) ELSE -1
        ForthFit(i) == IF i <= forth THEN FreeFit(P, x, start + i, pos) ELSE -1
        i == LeastIn(1, MaxOf(back, forth), LAMBDA y : BackFit(y) >= 0 \/ ForthFit(y) >= 0)
    IN IF i = 0 THEN <<>>
       ELSE IF BackFit(i) >= 0 THEN <<-i, BackFit(i)>> ELSE <<i, ForthFit(i)>>

NextOf(cs, n) == IF n < Len(cs) THEN <<cs[n + 1]>> ELSE <<>>

(* what is to be done with clump x                                           *)
Decide(P, x, nx, off, pos) ==
    LET here == FreeFit(P, x, x.bs + off, pos) IN
    IF here >= 0 THEN [kind |-> "ApplyExpected", d |-> 0, r |-> here]
    ELSE LET near == NearbyFit(P, x, nx, off, pos) IN
    IF near # <<>> THEN [kind |-> "ApplyNearby", d |-> near[1], r |-> near[2]]
    ELSE LET y == Rev(x)  ny == Dir(nx, TRUE)
             there == FreeFit(P, y, y.bs + off, pos) IN
    IF there >= 0 THEN [kind |-> "AlreadyExpected", d |-> 0, r |-> there]
    ELSE LET yond == NearbyFit(P, y, ny, off, pos) IN
    IF yond # <<>> THEN [kind |-> "AlreadyNearby", d |-> yond[1], r |-> yond[2]]
    ELSE [kind |-> "Conflict", d |-> 0, r |-> 0]

ConflictBlock(x) ==
    LET Closed(ls) == IF ls = <<>> THEN ls
                      ELSE SubSeq(ls, 1, Len(ls) - 1) \o <<WithEol(ls[Len(ls)])>>
    IN <<"<<<<<<<\n">> \o Closed(x.b) \o <<"=======\n">> \o Closed(x.a) \o <<">>>>>>>\n">>

(* a conflict block starts on a line of its own                              *)
OwnLine(out) == IF out = <<>> \/ EndsEol(out[Len(out)]) THEN <<>> ELSE <<"\n">>

----------------------------------------------------------------------------
(* Is the whole diff already applied? The new lines of every clump are where *)
(* they are expected or at the nearest place; nothing is ever consumed.      *)
RECURSIVE AllThere(_, _, _, _)
AllThere(P, cs, n, off) ==
    IF n > Len(cs) THEN TRUE
    ELSE LET y == Rev(cs[n]) IN
         IF Fit(P, y, y.bs + off) >= 0 THEN AllThere(P, cs, n + 1, off)
         ELSE LET near == NearbyFit(P, y, Dir(NextOf(cs, n), TRUE), off, 0) IN
              near # <<>> /\ AllThere(P, cs, n + 1, off + near[1])

AlreadyApplied(P, cs) == AllThere(P, cs, 1, 0)
=============================================================================
