SPECIFICATION Spec
CONSTANTS
    MAXLEN = 5
INVARIANTS OkIsAll AlwaysPrefix
PROPERTIES NothingAfterFailure FailureReported
