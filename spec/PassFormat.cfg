SPECIFICATION Spec
INVARIANTS EmitCase Fits
CHECK_DEADLOCK FALSE
