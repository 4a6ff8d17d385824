SPECIFICATION Spec
CONSTANT Defect = "none"
INVARIANTS Functional SameTerm EmitCase
CHECK_DEADLOCK FALSE
