SPECIFICATION Spec
INVARIANTS Strict EmitCase
CHECK_DEADLOCK FALSE
