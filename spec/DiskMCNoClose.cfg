SPECIFICATION Spec
CONSTANTS MaxOps = 4
 BufSize = 3
 CheckWrite = TRUE
 CheckClose = FALSE
 Clear = FALSE
 Emit = FALSE
INVARIANTS Complete EmitCase
CHECK_DEADLOCK FALSE
