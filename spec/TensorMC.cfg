SPECIFICATION Spec
CONSTANTS
  MaxDim = 3
  MaxRank = 3
  MaxOps = 4
  Emit = TRUE
  EmitEvery = 9
  Slots = {1, 2}
INVARIANTS Independent SizeOk EmitCase
CHECK_DEADLOCK FALSE
