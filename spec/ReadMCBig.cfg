SPECIFICATION Spec
CONSTANTS N = 2
 MaxOps = 5
 CheckEnd = TRUE
 Clears = TRUE
 CheckData = TRUE
 Emit = TRUE
INVARIANTS Truth Recovers EmitCase
CHECK_DEADLOCK FALSE
