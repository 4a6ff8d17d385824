SPECIFICATION Spec
CONSTANTS D = 2  O = 4  I = 2  N = 11  Drain = TRUE
INVARIANT NothingLost
INVARIANT Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
