SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANT EmitInit
PROPERTY Masked
CHECK_DEADLOCK FALSE
