SPECIFICATION Spec
CONSTANTS MaxLen = 5  Kind = "number"
INVARIANTS Balance Pieces WriteRead Complete DumpKeeps Emit
CHECK_DEADLOCK FALSE
