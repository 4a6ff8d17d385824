SPECIFICATION Spec
CONSTANTS N = 2
 MaxOps = 4
 CheckEnd = FALSE
 Clears = TRUE
 CheckData = TRUE
 Emit = FALSE
INVARIANTS Truth
CHECK_DEADLOCK FALSE
