INIT Init
NEXT Next
CONSTANTS
  MaxLen = 5
  Focus = "streams"
INVARIANTS Pools1 Sound RoundTrip Carried Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE
