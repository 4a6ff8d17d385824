SPECIFICATION Spec
CONSTANTS
    N = 2
    Calls = 1
    Area = "static"
    Table = "eager"
    Handle = "own"
    Emit = FALSE
INVARIANTS Separate
CHECK_DEADLOCK FALSE
