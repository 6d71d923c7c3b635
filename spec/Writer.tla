-------------------------------- MODULE Writer --------------------------------
(* Output of `full` to a writer that may accept part of what it is given, be *)
(* interrupted, or fail. x: bytes accepted so far; at: "writing", "failed"   *)
(* (the writer has failed and must not be used again), "ok" or "error" (what *)
(* was reported).                                                            *)
EXTENDS Base
VARIABLES full, x, at

AcceptSome(ys) == /\ at = "writing" /\ Match(full, x, ys) /\ ys # <<>>
                  /\ x' = x + Len(ys) /\ UNCHANGED <<full, at>>
Interrupted    == at = "writing" /\ x < Len(full) /\ UNCHANGED <<full, x, at>>
Fails          == at = "writing" /\ x < Len(full) /\ at' = "failed" /\ UNCHANGED <<full, x>>
ReportOk       == at = "writing" /\ x = Len(full) /\ at' = "ok" /\ UNCHANGED <<full, x>>
ReportError    == at = "failed" /\ at' = "error" /\ UNCHANGED <<full, x>>
=============================================================================
