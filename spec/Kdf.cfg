SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANT EmitInit
PROPERTIES Apart Quiet
CHECK_DEADLOCK FALSE
