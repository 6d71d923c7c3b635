------------------------------ MODULE GenPairs ------------------------------
(* Writes every pair of sequences over 1..K of length at most N, one pair    *)
(* from each class under renaming of the items (items appear in the order    *)
(* of their number), for the executors to run.                               *)
EXTENDS Base, TLC, Json, IOUtils
K == atoi(IOEnv.K)
N == atoi(IOEnv.N)

Canonical(x) == \A m \in 1..Len(x) :
    x[m] = 1 \/ x[m] - 1 \in {x[l] : l \in 1..(m - 1)}
Pairs == {p \in SeqsUpTo(1..K, N) \X SeqsUpTo(1..K, N) : Canonical(p[1] \o p[2])}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Pairs))
ASSUME PrintT(<<"GEN", Cardinality(Pairs)>>)
=============================================================================
