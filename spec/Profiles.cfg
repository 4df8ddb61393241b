SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANT EmitInit
INVARIANT Kept
CHECK_DEADLOCK FALSE
