SPECIFICATION Spec
INVARIANTS Grows EmitCase
CHECK_DEADLOCK FALSE
