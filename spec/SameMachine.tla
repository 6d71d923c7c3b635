------------------------------ MODULE SameMachine ------------------------------
(* Threads that ask questions, each computing its answer in steps with what  *)
(* it needs (scratch) to itself. Processes end and start again (Restart),    *)
(* and one may have any hidden state (mood) of its own: no answer uses it.   *)
EXTENDS Same
CONSTANTS THREADS, QUESTIONS, MOODS
VARIABLES asked, scratch, mood
vars == <<memo, asked, scratch, mood>>

Truth(q) == q * q                       \* what there is to be found out
Init == /\ Nothing(QUESTIONS) /\ mood \in MOODS
        /\ asked = [t \in THREADS |-> 0] /\ scratch = [t \in THREADS |-> 0]
Ask(t, q) == /\ asked[t] = 0
             /\ asked' = [asked EXCEPT ![t] = q] /\ scratch' = [scratch EXCEPT ![t] = 0]
             /\ UNCHANGED <<memo, mood>>
Work(t) == /\ asked[t] # 0 /\ scratch[t] < Truth(asked[t])
           /\ scratch' = [scratch EXCEPT ![t] = @ + asked[t]]
           /\ mood' \in MOODS /\ UNCHANGED <<memo, asked>>
Return(t) == /\ asked[t] # 0 /\ scratch[t] = Truth(asked[t])
             /\ Answer(asked[t], scratch[t])
             /\ asked' = [asked EXCEPT ![t] = 0] /\ UNCHANGED <<scratch, mood>>
Restart == /\ asked' = [t \in THREADS |-> 0] /\ scratch' = [t \in THREADS |-> 0]
           /\ mood' \in MOODS /\ UNCHANGED memo
Next == Restart \/ \E t \in THREADS : Work(t) \/ Return(t) \/ \E q \in QUESTIONS : Ask(t, q)
Spec == Init /\ [][Next]_vars

(* no return is ever refused: the answer is the one given before             *)
C22_OneAnswer == OneAnswer
C22_Never_Refused ==
    \A t \in THREADS : asked[t] # 0 /\ scratch[t] = Truth(asked[t]) => memo[asked[t]] \subseteq {scratch[t]}
=============================================================================
