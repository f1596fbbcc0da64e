SPECIFICATION Spec
CONSTANTS MaxLen = 24  KeyViews = FALSE
INVARIANTS Refines Readable NothingLeft Emit
CHECK_DEADLOCK FALSE
