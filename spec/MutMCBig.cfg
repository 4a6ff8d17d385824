SPECIFICATION Spec
CONSTANTS
  EmitEvery = 12
  MaxEdits = 2
  Bases = {3}
INVARIANTS Agree EmitCase
CHECK_DEADLOCK FALSE
