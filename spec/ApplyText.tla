------------------------------ MODULE ApplyText ------------------------------
(* Applying the clumps of a text diff to a file, one named action per way a  *)
(* clump can go.                                                             *)
(* The state s of an application has                                        *)
(*   k     the number of clumps dealt with                                   *)
(*   off   the displacement inherited from the clumps dealt with             *)
(*   pos   how many of the file's lines are dealt with (consumed)            *)
(*   out   the lines written so far                                          *)
(*   st    [clean, fuzzy, already applied, already applied fuzzily, failed]  *)
(*   kinds the actions taken, one letter per clump: E and N applied where    *)
(*         expected and nearby, A and B found already applied there, X       *)
(*         conflict; in lower case if context had to be ignored              *)
EXTENDS TextClumps

VARIABLE s

Start == [k |-> 0, off |-> 0, pos |-> 0, out |-> <<>>, st |-> <<0, 0, 0, 0, 0>>, kinds |-> ""]

Letter(d) ==
    CASE d.kind = "ApplyExpected"   -> IF d.r = 0 THEN "E" ELSE "e"
      [] d.kind = "ApplyNearby"     -> IF d.r = 0 THEN "N" ELSE "n"
      [] d.kind = "AlreadyExpected" -> IF d.r = 0 THEN "A" ELSE "a"
      [] d.kind = "AlreadyNearby"   -> IF d.r = 0 THEN "B" ELSE "b"

Count(n) == [s.st EXCEPT ![n] = @ + 1]

Applied(P, x, d, n) ==
    LET p == x.bs + s.off + d.d + Lead(x, d.r) IN
    s' = [k |-> s.k + 1, off |-> s.off + d.d,
          pos |-> MaxOf(s.pos, p) + Len(x.b) - Lead(x, d.r) - Trail(x, d.r),
          out |-> s.out \o Rng(P, s.pos, p) \o Cut(x.a, Lead(x, d.r), Trail(x, d.r)),
          st |-> Count(n), kinds |-> s.kinds \o Letter(d)]

Found(P, x, d, n) ==
    LET e == x.as + s.off + d.d + Len(x.a) - Trail(x, d.r) IN
    s' = [k |-> s.k + 1, off |-> s.off + d.d, pos |-> MaxOf(s.pos, e),
          out |-> s.out \o Rng(P, s.pos, e),
          st |-> Count(n), kinds |-> s.kinds \o Letter(d)]

ApplyExpected(P, x, d) ==
    d.kind = "ApplyExpected" /\ Applied(P, x, d, IF d.r = 0 THEN 1 ELSE 2)
ApplyNearby(P, x, d) ==
    d.kind = "ApplyNearby" /\ Applied(P, x, d, 2)
AlreadyExpected(P, x, d) ==
    d.kind = "AlreadyExpected" /\ Found(P, x, d, IF d.r = 0 THEN 3 ELSE 4)
AlreadyNearby(P, x, d) ==
    d.kind = "AlreadyNearby" /\ Found(P, x, d, 4)
Conflict(P, x, d) ==
    /\ d.kind = "Conflict"
    /\ s' = [s EXCEPT !.k = @ + 1, !.st = Count(5), !.kinds = @ \o "X",
                      !.out = @ \o OwnLine(@) \o ConflictBlock(x)]

ClumpStep(P, cs) ==
    /\ s.k < Len(cs)
    /\ LET x == cs[s.k + 1]
           d == Decide(P, x, NextOf(cs, s.k + 1), s.off, s.pos)
       IN \/ ApplyExpected(P, x, d) \/ ApplyNearby(P, x, d)
          \/ AlreadyExpected(P, x, d) \/ AlreadyNearby(P, x, d)
          \/ Conflict(P, x, d)

(* what the file is when all clumps are dealt with                           *)
Result(P) == Glue(s.out \o Rng(P, s.pos, Len(P)))

=============================================================================
