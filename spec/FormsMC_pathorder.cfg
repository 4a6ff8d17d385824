SPECIFICATION Spec
CONSTANT Defect = "path-order"
INVARIANTS Functional SameTerm EmitCase
CHECK_DEADLOCK FALSE
