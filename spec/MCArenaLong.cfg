INIT Init
NEXT Next
CONSTANTS
  MaxLen = 40
  MaxArrays = 5
  Caps = {0, 1, 2, 3, 7}
  Long = TRUE
INVARIANTS Independent AppendOnly RefsAlive Room Emit
CHECK_DEADLOCK FALSE
