SPECIFICATION Spec
CONSTANT Defect = "native"
INVARIANTS Functional SameTerm EmitCase
CHECK_DEADLOCK FALSE
