SPECIFICATION Spec
CONSTANTS MaxOps = 6
 BufSize = 3
 CheckWrite = TRUE
 CheckClose = TRUE
 Clear = FALSE
 Emit = TRUE
INVARIANTS Complete EmitCase
CHECK_DEADLOCK FALSE
