SPECIFICATION Spec
CONSTANTS N = 2
 MaxOps = 4
 CheckEnd = TRUE
 Clears = FALSE
 CheckData = TRUE
 Emit = FALSE
INVARIANTS Recovers
CHECK_DEADLOCK FALSE
