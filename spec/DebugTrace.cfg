INIT TInit
NEXT DNext
INVARIANT Verdict
ALIAS Alias
CHECK_DEADLOCK FALSE
