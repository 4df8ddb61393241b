SPECIFICATION Spec
INVARIANTS Close Sound EmitCase
CHECK_DEADLOCK FALSE
