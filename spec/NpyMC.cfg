SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Emit = TRUE
INVARIANTS RoundTrip Aligned PosSane EmitCase
CHECK_DEADLOCK FALSE
