CONSTANTS
  MaxToks = 0
  Leaves = 4
  BinSet = "few"
INIT TInit
NEXT TNext
INVARIANT Sound
CHECK_DEADLOCK FALSE
