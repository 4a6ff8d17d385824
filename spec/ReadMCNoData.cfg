SPECIFICATION Spec
CONSTANTS N = 2
 MaxOps = 4
 CheckEnd = TRUE
 Clears = TRUE
 CheckData = FALSE
 Emit = FALSE
INVARIANTS Truth
CHECK_DEADLOCK FALSE
