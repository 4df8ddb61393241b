SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANT EmitInit
PROPERTY Once
CHECK_DEADLOCK FALSE
