INIT Init
NEXT Next
CONSTANT Deep = FALSE
INVARIANTS Allowed Refuted
CHECK_DEADLOCK FALSE
