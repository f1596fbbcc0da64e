SPECIFICATION Spec
CONSTANTS MaxLen = 16  KeyViews = FALSE
VIEW View
INVARIANTS Refines Readable NothingLeft
CHECK_DEADLOCK FALSE
