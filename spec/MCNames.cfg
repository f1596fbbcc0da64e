INIT Init
NEXT Next
CONSTANTS
  MaxLen = 4
  Rich = FALSE
INVARIANTS Consistent RoundTrip Incremental Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
