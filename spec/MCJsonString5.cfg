SPECIFICATION Spec
CONSTANTS MaxLen = 5  Kind = "string"
INVARIANTS Balance Pieces WriteRead Complete DumpKeeps Emit
CHECK_DEADLOCK FALSE
