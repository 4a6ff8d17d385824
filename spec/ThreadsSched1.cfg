SPECIFICATION Spec
CONSTANTS
    N = 2
    Calls = 1
    Area = "own"
    Table = "eager"
    Handle = "own"
    Emit = TRUE
INVARIANTS Separate CanFinish PrintSched
PROPERTY NoInterference
CHECK_DEADLOCK FALSE
