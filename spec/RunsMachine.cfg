SPECIFICATION Spec
CONSTANTS
    JOBS <- Pairs
    SHARED = FALSE
INVARIANTS NoStrays Complete OneCreation AloneIsAlone
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
