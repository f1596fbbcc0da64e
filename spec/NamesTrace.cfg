INIT TInit
NEXT TNext
INVARIANT Verdict Consistent
CHECK_DEADLOCK FALSE
