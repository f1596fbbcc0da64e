SPECIFICATION Spec
CONSTANTS MaxLen = 4  Kind = "string"
INVARIANTS Balance Pieces WriteRead Complete DumpKeeps Emit
CHECK_DEADLOCK FALSE
