SPECIFICATION Spec
CONSTANTS MaxLen = 4  CopyFirst = FALSE
INVARIANTS Refines Owned Counted
CHECK_DEADLOCK FALSE
