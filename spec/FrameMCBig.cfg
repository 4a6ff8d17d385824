SPECIFICATION Spec
CONSTANTS MaxOps = 4
 RestoreReturn = TRUE
 RestoreThrow = TRUE
 Deep = TRUE
 Emit = TRUE
INVARIANTS Untouched EmitCase
CHECK_DEADLOCK FALSE
