SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANTS ReadersRight WritersRight
CHECK_DEADLOCK FALSE
