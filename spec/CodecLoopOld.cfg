SPECIFICATION Spec
CONSTANTS D = 2  O = 4  I = 2  N = 8  Drain = FALSE
INVARIANT NothingLost
INVARIANT Complete

CHECK_DEADLOCK FALSE
