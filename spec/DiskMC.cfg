SPECIFICATION Spec
CONSTANTS MaxOps = 5
 BufSize = 3
 CheckWrite = TRUE
 CheckClose = TRUE
 Clear = FALSE
 Emit = TRUE
INVARIANTS Complete EmitCase
CHECK_DEADLOCK FALSE
