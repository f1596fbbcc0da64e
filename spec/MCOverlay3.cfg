SPECIFICATION Spec
CONSTANTS MaxLen = 3  Keys = {"a", "b", "c", "d"}
INVARIANTS Refines Transparent Agrees Single Emit EmitBase
PROPERTY Local
CHECK_DEADLOCK FALSE
