SPECIFICATION Spec
CONSTANTS NThreads = 2  Cache = "node"  Locked = TRUE  NEvals = 2
INVARIANTS Repeatable Complete CacheSound
PROPERTY PoolKept
CHECK_DEADLOCK FALSE
