SPECIFICATION Spec
CONSTANTS MaxLen = 6  KeyViews = TRUE
VIEW View
INVARIANTS Refines Readable NothingLeft
CHECK_DEADLOCK FALSE
