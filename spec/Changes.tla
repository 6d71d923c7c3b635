------------------------------ MODULE Changes ------------------------------
(* What a list of changes is, and what makes it right.                      *)
(* A change is [t, bs, be, as, ae]: t is "N" (unchanged), "D" (deleted),     *)
(* "I" (inserted) or "R" (replaced); [bs, be) is its range in the first      *)
(* sequence and [as, ae) in the second.                                      *)
EXTENDS Base

SameItems(b, a, c) ==
    /\ c.be - c.bs = c.ae - c.as
    /\ \A n \in 1..(c.be - c.bs) : b[c.bs + n] = a[c.as + n]

Shape(c) ==
    CASE c.t = "N" -> c.be > c.bs /\ c.ae > c.as
      [] c.t = "D" -> c.be > c.bs /\ c.ae = c.as
      [] c.t = "I" -> c.be = c.bs /\ c.ae > c.as
      [] c.t = "R" -> c.be > c.bs /\ c.ae > c.as
      [] OTHER -> FALSE

InBounds(b, a, c) ==
    /\ 0 <= c.bs /\ c.bs <= c.be /\ c.be <= Len(b)
    /\ 0 <= c.as /\ c.as <= c.ae /\ c.ae <= Len(a)

Covers(b, a, ch) ==
    IF ch = <<>> THEN b = <<>> /\ a = <<>>
    ELSE /\ ch[1].bs = 0 /\ ch[1].as = 0
         /\ ch[Len(ch)].be = Len(b) /\ ch[Len(ch)].ae = Len(a)
         /\ \A n \in 1..(Len(ch) - 1) : ch[n+1].bs = ch[n].be /\ ch[n+1].as = ch[n].ae

RECURSIVE Replay(_, _, _)
Replay(b, a, ch) ==
    IF ch = <<>> THEN <<>>
    ELSE LET c == Head(ch) IN
         (IF c.t = "N" THEN Rng(b, c.bs, c.be)
          ELSE IF c.t = "D" THEN <<>> ELSE Rng(a, c.as, c.ae)) \o Replay(b, a, Tail(ch))

IsEditScript(b, a, ch) ==
    /\ \A n \in 1..Len(ch) : InBounds(b, a, ch[n]) /\ Shape(ch[n])
    /\ Covers(b, a, ch)
    /\ \A n \in 1..Len(ch) : ch[n].t = "N" => SameItems(b, a, ch[n])
    /\ Replay(b, a, ch) = a

(* changes and unchanged regions alternate *)
Alternates(ch) == \A n \in 1..(Len(ch) - 1) : (ch[n].t = "N") # (ch[n+1].t = "N")

(* no item is on both sides of a replaced region *)
NothingCommonLeft(b, a, ch) ==
    \A n \in 1..Len(ch) : ch[n].t = "R" =>
        Items(Rng(b, ch[n].bs, ch[n].be)) \cap Items(Rng(a, ch[n].as, ch[n].ae)) = {}

----------------------------------------------------------------------------
(* Longest common runs. A run is <<i, j, n>>: n items from i in the first    *)
(* and from j in the second sequence.                                        *)

IsRun(b, a, r, i, j, n) ==     \* r = <<b0, b1, a0, a1>>
    /\ r[1] <= i /\ i + n <= r[2] /\ r[3] <= j /\ j + n <= r[4]
    /\ \A m \in 1..n : b[i + m] = a[j + m]

HasRun(b, a, r, n) ==
    \E i \in r[1]..(r[2] - n), j \in r[3]..(r[4] - n) : IsRun(b, a, r, i, j, n)

(* the length of a longest run, row by row over the second sequence          *)
DenseLength(b, a, r) ==
    LET Row(acc, j) ==         \* acc.row[i + 1] is the length of the run ending at b[i], a[j - 1]
          LET row == [i \in 1..(r[2] + 1) |->
                        IF i > r[1] + 1 /\ b[i - 1] = a[j] THEN acc.row[i - 1] + 1 ELSE 0]
          IN [row |-> row, most |-> FoldLeft(MaxOf, acc.most, row)]
    IN FoldLeft(Row, [row |-> [i \in 1..(r[2] + 1) |-> 0], most |-> 0],
                [x \in 1..(r[4] - r[3]) |-> r[3] + x]).most

(* the same for long sequences of numbers: a row has only the places where   *)
(* the items are the same, as pairs <<place, length of the run ending there>> *)
WhereEach(b, a, r) ==             \* where in the first sequence each item is
    LET all == Items(b) \cup Items(a)
        low == CHOOSE x \in all : \A y \in all : x <= y
        top == CHOOSE x \in all : \A y \in all : x >= y
    IN FoldLeft(LAMBDA f, i : [f EXCEPT ![b[i]] = Append(@, i)], [x \in low..top |-> <<>>],
                [x \in 1..(r[2] - r[1]) |-> r[1] + x])
SparseLength(b, a, r) ==
    LET places == WhereEach(b, a, r)
        Before(row, i) ==
            LET n == SelectInSeq(row, LAMBDA e : e[1] = i - 1) IN IF n = 0 THEN 0 ELSE row[n][2]
        Row(acc, j) ==
            LET here == places[a[j]]
                row == [n \in 1..Len(here) |-> <<here[n], Before(acc.row, here[n]) + 1>>]
            IN [row |-> row, most |-> FoldLeft(LAMBDA m, e : MaxOf(m, e[2]), acc.most, row)]
    IN IF r[1] = r[2] \/ r[3] = r[4] THEN 0
       ELSE FoldLeft(Row, [row |-> <<>>, most |-> 0], [x \in 1..(r[4] - r[3]) |-> r[3] + x]).most

LongestLength(b, a, r) ==      \* whichever is less work
    LET all == (r[2] - r[1]) * (r[4] - r[3]) IN
    IF all <= 3000 THEN DenseLength(b, a, r)
    ELSE LET places == WhereEach(b, a, r)
             pairs == FoldLeft(LAMBDA n, j : n + Len(places[a[j]]) * (1 + Len(places[a[j + 1]])), 0,
                               [x \in 1..(r[4] - r[3] - 1) |-> r[3] + x])
         IN IF pairs < all THEN SparseLength(b, a, r) ELSE DenseLength(b, a, r)

(* res = <<>> stands for "none" *)
IsLongest(b, a, r, res) ==
    IF res = <<>> THEN LongestLength(b, a, r) = 0
    ELSE /\ res[3] >= 1
         /\ IsRun(b, a, r, res[1], res[2], res[3])
         /\ res[3] = LongestLength(b, a, r)

LongestRuns(b, a, r) ==
    LET L == {n \in 1..MinOf(r[2] - r[1], r[4] - r[3]) : HasRun(b, a, r, n)}
    IN  IF L = {} THEN {}
        ELSE LET n == CHOOSE x \in L : \A y \in L : y <= x IN
             {<<i, j, n>> : i \in r[1]..(r[2] - n), j \in r[3]..(r[4] - n)} \cap
             {x \in (r[1]..r[2]) \X (r[3]..r[4]) \X {n} : IsRun(b, a, r, x[1], x[2], n)}

(* the changes that a set of disjoint, uncrossed runs stands for *)
Gap(i, i2, j, j2) ==
    IF i < i2 /\ j < j2 THEN <<[t |-> "R", bs |-> i, be |-> i2, as |-> j, ae |-> j2]>>
    ELSE IF i < i2 THEN <<[t |-> "D", bs |-> i, be |-> i2, as |-> j2, ae |-> j2]>>
    ELSE IF j < j2 THEN <<[t |-> "I", bs |-> i2, be |-> i2, as |-> j, ae |-> j2]>>
    ELSE <<>>

RECURSIVE Merged(_)
Merged(rs) ==          \* rs: sequence of runs in order
    IF Len(rs) <= 1 THEN rs
    ELSE LET x == rs[1]  y == rs[2] IN
         IF x[1] + x[3] = y[1] /\ x[2] + x[3] = y[2]
         THEN Merged(<< <<x[1], x[2], x[3] + y[3]>> >> \o Tail(Tail(rs)))
         ELSE <<x>> \o Merged(Tail(rs))

RECURSIVE Ordered(_)
Ordered(S) ==
    IF S = {} THEN <<>>
    ELSE LET x == CHOOSE x \in S : \A y \in S : x[1] <= y[1] IN <<x>> \o Ordered(S \ {x})

RECURSIVE FromRuns(_, _, _, _, _)
FromRuns(b, a, rs, i, j) ==
    IF rs = <<>> THEN Gap(i, Len(b), j, Len(a))
    ELSE LET x == Head(rs) IN
         Gap(i, x[1], j, x[2])
         \o <<[t |-> "N", bs |-> x[1], be |-> x[1] + x[3], as |-> x[2], ae |-> x[2] + x[3]]>>
         \o FromRuns(b, a, Tail(rs), x[1] + x[3], x[2] + x[3])

ChangesOfRuns(b, a, S) == FromRuns(b, a, Merged(Ordered(S)), 0, 0)

(* a deterministic differ, for models that need just some right answer *)
RECURSIVE RunsIn(_, _, _)
RunsIn(b, a, r) ==
    LET L == LongestRuns(b, a, r) IN
    IF L = {} THEN {}
    ELSE LET x == CHOOSE x \in L : \A y \in L : <<x[2], x[1]>> = <<y[2], y[1]>>
                        \/ x[2] < y[2] \/ (x[2] = y[2] /\ x[1] < y[1]) IN
         {x} \cup RunsIn(b, a, <<r[1], x[1], r[3], x[2]>>)
             \cup RunsIn(b, a, <<x[1] + x[3], r[2], x[2] + x[3], r[4]>>)

SomeChanges(b, a) == ChangesOfRuns(b, a, RunsIn(b, a, <<0, Len(b), 0, Len(a)>>))
=============================================================================
