SPECIFICATION Spec
CONSTANTS
  EmitEvery = 8
  WsChoices = {1, 2, 3, 4}
  Metas = {1, 2, 3, 4, 5}
  Versions = {1, 2}
  Changes = 2
INVARIANTS Understood Unfinished EmitCase
CHECK_DEADLOCK FALSE
