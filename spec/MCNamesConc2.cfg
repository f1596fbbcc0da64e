INIT Init
NEXT Next
CONSTANTS
  Threads = {1,2}
  Double = TRUE
INVARIANTS Consistent Returned NoGap Emit
CHECK_DEADLOCK FALSE
