SPECIFICATION Spec
CONSTANTS MaxLen = 12  Keys = {"a", "b", "c", "d"}
INVARIANTS Refines Transparent Agrees Single Emit EmitBase
CHECK_DEADLOCK FALSE
