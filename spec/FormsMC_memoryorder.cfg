SPECIFICATION Spec
CONSTANT Defect = "memory-order"
INVARIANTS Functional SameTerm EmitCase
CHECK_DEADLOCK FALSE
