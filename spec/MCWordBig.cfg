CONSTANTS
  MaxLen = 3
  Extra = TRUE
INIT Init
NEXT Next
INVARIANT Sound
CHECK_DEADLOCK FALSE
