SPECIFICATION Spec
CONSTANTS MaxOps = 4
 BufSize = 3
 CheckWrite = FALSE
 CheckClose = TRUE
 Clear = TRUE
 Emit = FALSE
INVARIANTS Complete EmitCase
CHECK_DEADLOCK FALSE
