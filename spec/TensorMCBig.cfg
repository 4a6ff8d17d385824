SPECIFICATION Spec
CONSTANTS
  MaxDim = 3
  MaxRank = 4
  MaxOps = 5
  Emit = TRUE
  EmitEvery = 400
  Slots = {1, 2, 3}
INVARIANTS Independent SizeOk EmitCase
CHECK_DEADLOCK FALSE
