CONSTANTS
  MaxLen = 3
  Extra = FALSE
INIT Init
NEXT Next
INVARIANT Sound
CHECK_DEADLOCK FALSE
