INIT Init
NEXT Next
CONSTANT Deep = TRUE
INVARIANTS Allowed Refuted
CHECK_DEADLOCK FALSE
