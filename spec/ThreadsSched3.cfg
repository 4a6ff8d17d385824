SPECIFICATION Spec
CONSTANTS
    N = 3
    Calls = 1
    Area = "own"
    Table = "eager"
    Handle = "own"
    Emit = TRUE
INVARIANTS Separate CanFinish PrintSched
PROPERTY NoInterference
CHECK_DEADLOCK FALSE
