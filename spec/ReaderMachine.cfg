SPECIFICATION Spec
CONSTANTS
    BYTES = {10, 13, 65, 195, 169}
    MAXLEN = 4
    MAXPIECE = 3
INVARIANTS NothingLost OnlyNewlineIsLast WholeLines PiecesDontMatter
PROPERTIES Ends
