INIT Init
NEXT Next
CONSTANTS
  MaxLen = 5
  Rich = FALSE
INVARIANTS Consistent RoundTrip Incremental Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
