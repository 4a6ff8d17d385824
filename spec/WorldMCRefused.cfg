SPECIFICATION Spec
CONSTANTS MaxOps = 3
 CleanRefused = FALSE
 CleanThrown = TRUE
 CloseReleases = TRUE
 DestroyReleases = TRUE
 ReadOnly = TRUE
 Emit = FALSE
INVARIANTS Footprint NothingLeft EmitCase
CHECK_DEADLOCK FALSE
