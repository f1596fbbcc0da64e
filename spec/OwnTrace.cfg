INIT TInit
NEXT TNext
INVARIANT Verdict
CHECK_DEADLOCK FALSE
