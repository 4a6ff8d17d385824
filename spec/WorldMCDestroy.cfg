SPECIFICATION Spec
CONSTANTS MaxOps = 3
 CleanRefused = TRUE
 CleanThrown = TRUE
 CloseReleases = TRUE
 DestroyReleases = FALSE
 ReadOnly = TRUE
 Emit = FALSE
INVARIANTS Footprint NothingLeft EmitCase
CHECK_DEADLOCK FALSE
