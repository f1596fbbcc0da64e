SPECIFICATION Spec
CONSTANTS NThreads = 3  Cache = "id"  Locked = TRUE  NEvals = 1
INVARIANTS Repeatable Complete CacheSound
PROPERTY PoolKept
CHECK_DEADLOCK FALSE
