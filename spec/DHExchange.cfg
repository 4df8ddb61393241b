SPECIFICATION Spec
INVARIANTS EmitCase Exactly
CHECK_DEADLOCK FALSE
