SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Emit = TRUE
INVARIANTS RoundTrip Aligned PosSane EmitCase
CHECK_DEADLOCK FALSE
