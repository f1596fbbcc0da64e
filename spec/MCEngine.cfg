SPECIFICATION Spec
CONSTANTS NThreads = 2  Cache = "id"  Locked = TRUE  NEvals = 2
INVARIANTS Repeatable Complete CacheSound
PROPERTY PoolKept
CHECK_DEADLOCK FALSE
