INIT Init
NEXT Next
CONSTANTS
  MaxLen = 4
  Focus = "build"
INVARIANTS Pools1 Sound RoundTrip Carried Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE
