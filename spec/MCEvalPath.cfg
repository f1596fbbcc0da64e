CONSTANTS
  Focus = "path"
  Leaves = 7
  Depth = 2
  Small = TRUE
INIT MInit
NEXT MNext
INVARIANT Sound
ALIAS MAlias
CHECK_DEADLOCK FALSE
