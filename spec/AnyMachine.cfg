SPECIFICATION AnySpec
CONSTANTS
  ITEMS = {1, 2}
  MAXLEN = 0
  MAXFILE = 2
  CONTEXTS = {0}
  REVERSED = {FALSE}
  STARTS = {0, 1, 9}
  SIDE = 2
  MANY = FALSE
INVARIANT C06_Placed
INVARIANT C06_NoOverlap
INVARIANT C09_CountedOnce
PROPERTY C06_Completes
PROPERTY C08_UnchangedThere
PROPERTY C09_Block
