SPECIFICATION Spec
CONSTANTS
    MAXLEN = 3
    CONTEXTS = {0, 1, 2}
INVARIANTS ParsedIsWritten WrittenIsNotRefused DamagedIsRefused StepsAgree
