SPECIFICATION Spec
CONSTANTS MaxOps = 3
 Emit = TRUE
INVARIANTS OnlyGood ReadBack EmitCase
CHECK_DEADLOCK FALSE
