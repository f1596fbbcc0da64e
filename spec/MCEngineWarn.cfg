SPECIFICATION Spec
CONSTANTS NThreads = 2  Cache = "id"  Locked = FALSE  NEvals = 1
INVARIANTS Repeatable Complete CacheSound
PROPERTY PoolKept
CHECK_DEADLOCK FALSE
