SPECIFICATION Spec
CONSTANTS
    ITEMS = {1, 2}
    MAXLEN = 3
    CONTEXTS = {0, 1, 2, 3}
INVARIANTS AllClean Reproduces NothingToDo KnownApplied
