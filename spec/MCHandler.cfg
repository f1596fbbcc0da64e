INIT Init
NEXT Next
CONSTANT MaxLen = 4
INVARIANTS TypeOK SeenOnce SilentWithout Transparent LastWins Emit
CHECK_DEADLOCK FALSE
