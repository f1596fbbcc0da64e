CONSTANTS
  Focus = "diag"
  Leaves = 7
  Depth = 2
  Small = FALSE
INIT MInit
NEXT MNext
INVARIANT Sound
ALIAS MAlias
CHECK_DEADLOCK FALSE
