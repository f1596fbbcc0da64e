CONSTANTS
  Focus = "path"
  Leaves = 3
  Depth = 3
  Small = TRUE
INIT MInit
NEXT MNext
INVARIANT Sound
ALIAS MAlias
CHECK_DEADLOCK FALSE
