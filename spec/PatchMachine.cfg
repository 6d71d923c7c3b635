SPECIFICATION Spec
CONSTANTS
    MAXLEN = 2
    RUNS = 2
INVARIANTS OnlyTheTarget NoStrays OldOrComplete FailedIsUnchanged FaultFails SuccessIsComplete ForwardWorks BackwardWorks
