SPECIFICATION Spec
INVARIANTS Inverse EmitCase
CHECK_DEADLOCK FALSE
