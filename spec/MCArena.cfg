INIT Init
NEXT Next
CONSTANTS
  MaxLen = 6
  MaxArrays = 2
  Caps = {0, 1, 2}
  Long = FALSE
INVARIANTS Independent AppendOnly RefsAlive Room Emit
CHECK_DEADLOCK FALSE
