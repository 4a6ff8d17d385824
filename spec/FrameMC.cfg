SPECIFICATION Spec
CONSTANTS MaxOps = 3
 RestoreReturn = TRUE
 RestoreThrow = TRUE
 Deep = TRUE
 Emit = TRUE
INVARIANTS Untouched EmitCase
CHECK_DEADLOCK FALSE
