SPECIFICATION Spec
CONSTANTS
    ITEMS = {1, 2}
    MAXLEN = 3
    MAXFILE = 4
    CONTEXTS = {0, 1}
INVARIANTS Exactly OldWasThere NoOverlap CountedOnce KnownApplied
