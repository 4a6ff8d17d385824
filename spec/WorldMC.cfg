SPECIFICATION Spec
CONSTANTS MaxOps = 4
 CleanRefused = TRUE
 CleanThrown = TRUE
 CloseReleases = TRUE
 DestroyReleases = TRUE
 ReadOnly = TRUE
 Emit = TRUE
INVARIANTS Footprint NothingLeft EmitCase
CHECK_DEADLOCK FALSE
