CONSTANTS
  MaxToks = 4
  Leaves = 2
  BinSet = "few"
INIT Init
NEXT Next
INVARIANT Sound
CHECK_DEADLOCK FALSE
