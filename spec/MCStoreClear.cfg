INIT Init
NEXT Next
CONSTANTS
  MaxLen = 3
  Focus = "clear"
INVARIANTS Pools1 Sound RoundTrip Carried Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE
