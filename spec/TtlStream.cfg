SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANT EmitInit
PROPERTIES InTime Begins
CHECK_DEADLOCK FALSE
