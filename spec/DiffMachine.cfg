SPECIFICATION Spec
CONSTANTS
    ITEMS = {1, 2}
    MAXLEN = 4
    CONTEXTS = {0, 1, 2}
INVARIANTS RunsUncrossed WorkClear RunsCommon C01_EditScript C01_EqualOnly C02_Maximal C02_Length C03_Clumps
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
