SPECIFICATION Spec
CONSTANTS MaxLen = 12  KeyViews = FALSE
INVARIANTS Refines Readable NothingLeft Emit
CHECK_DEADLOCK FALSE
