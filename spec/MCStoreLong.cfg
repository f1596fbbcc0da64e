INIT Init
NEXT Next
CONSTANTS
  MaxLen = 25
  Focus = "all"
INVARIANTS Pools1 Sound RoundTrip Carried Emit

CHECK_DEADLOCK FALSE
