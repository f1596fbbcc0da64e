SPECIFICATION Spec
CONSTANTS MaxLen = 10  KeyViews = FALSE
VIEW View
INVARIANTS Refines Readable NothingLeft
CHECK_DEADLOCK FALSE
