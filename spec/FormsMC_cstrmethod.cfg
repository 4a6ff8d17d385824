SPECIFICATION Spec
CONSTANT Defect = "cstr-method"
INVARIANTS Functional SameTerm EmitCase
CHECK_DEADLOCK FALSE
