SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Emit = TRUE
INVARIANTS OnlyGood ReadBack EmitCase
CHECK_DEADLOCK FALSE
