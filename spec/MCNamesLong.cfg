INIT Init
NEXT Next
CONSTANTS
  MaxLen = 30
  Rich = TRUE
INVARIANTS Consistent RoundTrip Incremental Emit
CHECK_DEADLOCK FALSE
