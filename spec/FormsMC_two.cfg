SPECIFICATION Spec
CONSTANT Defect = "two"
INVARIANTS Functional SameTerm EmitCase
CHECK_DEADLOCK FALSE
