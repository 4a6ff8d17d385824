SPECIFICATION Spec
CONSTANTS MaxOps = 4
 CheckImage = FALSE
 CheckWrite = TRUE
 CheckClose = TRUE
 Emit = FALSE
INVARIANTS Complete EmitCase
CHECK_DEADLOCK FALSE
