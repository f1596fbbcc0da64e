INIT Init
NEXT Next
CONSTANTS
  Threads = {1,2}
  Double = FALSE
INVARIANTS Consistent Returned NoGap Emit
CHECK_DEADLOCK FALSE
