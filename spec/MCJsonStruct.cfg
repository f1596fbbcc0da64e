SPECIFICATION Spec
CONSTANTS MaxLen = 6  Kind = "struct"
INVARIANTS Balance Pieces WriteRead Complete DumpKeeps Emit
CHECK_DEADLOCK FALSE
