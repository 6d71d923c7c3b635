----------------------------- MODULE ApplyBytes -----------------------------
(* Applying the clumps of a byte diff to a file: exactly where recorded or   *)
(* not at all. Clumps as in ApplyText; counts in s.st are                    *)
(* <<clean, 0, already applied, 0, failed>>.                                 *)
EXTENDS Base

Rev(x) == [bs |-> x.as, b |-> x.a, as |-> x.bs, a |-> x.b]
Dir(cs, rev) == IF rev THEN [n \in 1..Len(cs) |-> Rev(cs[n])] ELSE cs

Decide(P, x, pos) ==
    IF x.bs >= pos /\ Match(P, x.bs, x.b) THEN "E"
    ELSE IF x.as >= pos /\ Match(P, x.as, x.a) THEN "A"
    ELSE "X"

VARIABLE s
Start == [k |-> 0, pos |-> 0, out |-> <<>>, st |-> <<0, 0, 0, 0, 0>>, kinds |-> ""]
Dealt(kind, n, pos, out) ==
    s' = [k |-> s.k + 1, pos |-> pos, out |-> s.out \o out,
          st |-> [s.st EXCEPT ![n] = @ + 1], kinds |-> s.kinds \o kind]

Apply(P, x, d) ==
    d = "E" /\ Dealt(d, 1, x.bs + Len(x.b), Rng(P, s.pos, x.bs) \o x.a)
Already(P, x, d) ==
    d = "A" /\ Dealt(d, 3, x.as + Len(x.a), Rng(P, s.pos, x.as + Len(x.a)))
Fail(P, x, d) ==
    d = "X" /\ Dealt(d, 5, s.pos, <<>>)

ClumpStep(P, cs) ==
    /\ s.k < Len(cs)
    /\ LET x == cs[s.k + 1]
           d == Decide(P, x, s.pos)
       IN Apply(P, x, d) \/ Already(P, x, d) \/ Fail(P, x, d)

Result(P) == s.out \o Rng(P, s.pos, Len(P))

AlreadyApplied(P, cs) == \A n \in 1..Len(cs) : Match(P, cs[n].as, cs[n].a)
=============================================================================
