INIT Init
NEXT Next
CONSTANTS
  Threads = {1, 2}
  PerThread = 3
  Cap = 1
INVARIANTS Sequential Disjoint Emit
CHECK_DEADLOCK FALSE
