SPECIFICATION Spec
CONSTANTS MaxLen = 5  CopyFirst = TRUE
INVARIANTS Refines Owned Counted Emit
CHECK_DEADLOCK FALSE
