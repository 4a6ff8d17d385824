SPECIFICATION Spec
CONSTANTS
    N = 2
    Calls = 1
    Area = "own"
    Table = "eager"
    Handle = "cached"
    Emit = FALSE
INVARIANTS Separate
CHECK_DEADLOCK FALSE
