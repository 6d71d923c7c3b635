--------------------------------- MODULE Same ---------------------------------
(* Answers depend on what is asked and on nothing else. memo[q]: the answers *)
(* given to question q so far, by any thread of any process.                 *)
EXTENDS Base
VARIABLE memo

Nothing(Q) == memo = [q \in Q |-> {}]
Answer(q, a) == /\ memo[q] \subseteq {a}
                /\ memo' = [memo EXCEPT ![q] = {a}]
OneAnswer == \A q \in DOMAIN memo : Cardinality(memo[q]) <= 1
=============================================================================
