SPECIFICATION Spec
CONSTANTS MaxOps = 2
 RestoreReturn = FALSE
 RestoreThrow = TRUE
 Deep = TRUE
 Emit = FALSE
INVARIANTS Untouched EmitCase
CHECK_DEADLOCK FALSE
