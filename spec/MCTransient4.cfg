SPECIFICATION Spec
CONSTANTS MaxLen = 4  CopyFirst = TRUE
INVARIANTS Refines Owned Counted Emit
CHECK_DEADLOCK FALSE
