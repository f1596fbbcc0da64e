SPECIFICATION Spec
CONSTANTS NThreads = 2  Cache = "torn"  Locked = TRUE  NEvals = 1
INVARIANTS Repeatable Complete CacheSound
PROPERTY PoolKept
CHECK_DEADLOCK FALSE
