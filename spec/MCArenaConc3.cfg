INIT Init
NEXT Next
CONSTANTS
  Threads = {1, 2, 3}
  PerThread = 2
  Cap = 1
INVARIANTS Sequential Disjoint Emit
CHECK_DEADLOCK FALSE
