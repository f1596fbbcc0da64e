SPECIFICATION Spec
CONSTANTS MaxLen = 20  CopyFirst = TRUE
INVARIANTS Refines Owned Counted Emit
CHECK_DEADLOCK FALSE
