SPECIFICATION Spec
INVARIANTS Positive Fresh EmitCase
CHECK_DEADLOCK FALSE
