SPECIFICATION Spec
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
