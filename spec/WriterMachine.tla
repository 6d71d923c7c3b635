---------------------------- MODULE WriterMachine ----------------------------
EXTENDS Writer, TLC
CONSTANTS MAXLEN
VARIABLES written
vars == <<full, x, at, written>>
Init == full \in SeqsUpTo({1, 2}, MAXLEN) /\ x = 0 /\ at = "writing" /\ written = <<>>
Progress == \E n \in 1..Len(full) :
    /\ x + n <= Len(full)
    /\ AcceptSome(Rng(full, x, x + n)) /\ written' = written \o Rng(full, x, x + n)
Next == Progress \/ ((Interrupted \/ Fails \/ ReportOk \/ ReportError) /\ UNCHANGED written)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ SF_vars(Progress)
OkIsAll == at = "ok" => written = full
AlwaysPrefix == IsPrefixOf(written, full)
Ended == at \in {"failed", "error", "ok"}
NothingAfterFailure == [][Ended => UNCHANGED written]_vars
FailureReported == at = "failed" ~> at = "error"
=============================================================================
