SPECIFICATION Spec
CONSTANTS MaxOps = 3
 CleanRefused = TRUE
 CleanThrown = TRUE
 CloseReleases = FALSE
 DestroyReleases = TRUE
 ReadOnly = TRUE
 Emit = FALSE
INVARIANTS Footprint NothingLeft EmitCase
CHECK_DEADLOCK FALSE
