SPECIFICATION Spec
INVARIANTS Recognised OtherSideIsNot BrokenHasNoStamp
