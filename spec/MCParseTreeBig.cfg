CONSTANTS
  MaxToks = 0
  Leaves = 5
  BinSet = "all"
INIT TInit
NEXT TNext
INVARIANT Sound
CHECK_DEADLOCK FALSE
