SPECIFICATION Spec
CONSTANTS MaxOps = 2
 RestoreReturn = TRUE
 RestoreThrow = FALSE
 Deep = TRUE
 Emit = FALSE
INVARIANTS Untouched EmitCase
CHECK_DEADLOCK FALSE
