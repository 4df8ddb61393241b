SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANT EmitInit
PROPERTY Quiet
CHECK_DEADLOCK FALSE
