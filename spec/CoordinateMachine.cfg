SPECIFICATION Spec
CONSTANTS
    N = 4
INVARIANTS Dual Consistent
PROPERTIES SwitchesSides BothIsNothing
