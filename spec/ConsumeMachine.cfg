SPECIFICATION Spec
CONSTANTS
    MAXLEN = 3
    DEPTH = 4
INVARIANTS InOrder ExactlyTheSkipped AllAfterRemainder EmptyAtEnd Emit
PROPERTIES NeverBack PastWritesNothing
