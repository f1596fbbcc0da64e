INIT Init
NEXT Next
CONSTANTS
  MaxLen = 3
  Rich = TRUE
INVARIANTS Consistent RoundTrip Incremental Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
