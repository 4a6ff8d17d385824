SPECIFICATION Spec
CONSTANTS
  EmitEvery = 1
  WsChoices = {1, 2, 3}
  Metas = {1, 2, 3, 4}
  Versions = {1, 2}
  Changes = 1
INVARIANTS Understood Unfinished EmitCase
CHECK_DEADLOCK FALSE
