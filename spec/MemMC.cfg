SPECIFICATION Spec
CONSTANTS MaxOps = 4
 CheckImage = TRUE
 CheckWrite = TRUE
 CheckClose = TRUE
 Emit = TRUE
INVARIANTS Complete EmitCase
CHECK_DEADLOCK FALSE
