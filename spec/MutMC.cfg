SPECIFICATION Spec
CONSTANTS
  EmitEvery = 1
  MaxEdits = 1
  Bases = {1, 2, 3}
INVARIANTS Agree EmitCase
CHECK_DEADLOCK FALSE
