SPECIFICATION Spec
INVARIANTS Once EmitCase
CHECK_DEADLOCK FALSE
