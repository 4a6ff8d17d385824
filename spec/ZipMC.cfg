SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANTS ReadersRight WritersRight
CHECK_DEADLOCK FALSE
