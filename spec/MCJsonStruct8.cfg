SPECIFICATION Spec
CONSTANTS MaxLen = 8  Kind = "struct"
INVARIANTS Balance Pieces WriteRead Complete DumpKeeps Emit
CHECK_DEADLOCK FALSE
