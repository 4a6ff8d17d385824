SPECIFICATION Spec
CONSTANTS
    N = 2
    Calls = 1
    Area = "own"
    Table = "flagfirst"
    Handle = "own"
    Emit = FALSE
INVARIANTS Separate
CHECK_DEADLOCK FALSE
