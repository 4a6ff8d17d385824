SPECIFICATION Spec
CONSTANTS
    N = 3
    Calls = 2
    Area = "own"
    Table = "once"
    Handle = "own"
    Emit = FALSE
INVARIANTS Separate CanFinish PrintSched
PROPERTY NoInterference
CHECK_DEADLOCK FALSE
