SPECIFICATION Spec
CONSTANTS MaxOps = 4
 CheckImage = TRUE
 CheckWrite = FALSE
 CheckClose = FALSE
 Emit = FALSE
INVARIANTS Complete EmitCase
CHECK_DEADLOCK FALSE
