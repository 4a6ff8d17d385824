SPECIFICATION Spec
CONSTANTS MaxOps = 3
 CleanRefused = TRUE
 CleanThrown = TRUE
 CloseReleases = TRUE
 DestroyReleases = TRUE
 ReadOnly = FALSE
 Emit = FALSE
INVARIANTS Footprint NothingLeft EmitCase
CHECK_DEADLOCK FALSE
