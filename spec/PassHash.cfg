SPECIFICATION Spec
INVARIANTS EmitCase Exact
CHECK_DEADLOCK FALSE
