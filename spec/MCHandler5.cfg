INIT Init
NEXT Next
CONSTANT MaxLen = 5
INVARIANTS TypeOK SeenOnce SilentWithout Transparent LastWins Emit
CHECK_DEADLOCK FALSE
