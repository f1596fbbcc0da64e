CONSTANT N = 40
INIT Init
NEXT Next
INVARIANT Sound
ALIAS MAlias
CHECK_DEADLOCK FALSE
