INIT TInit
NEXT TNext
INVARIANT Verdict
ALIAS Alias
CHECK_DEADLOCK FALSE
