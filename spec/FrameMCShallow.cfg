SPECIFICATION Spec
CONSTANTS MaxOps = 3
 RestoreReturn = TRUE
 RestoreThrow = TRUE
 Deep = FALSE
 Emit = FALSE
INVARIANTS Untouched EmitCase
CHECK_DEADLOCK FALSE
