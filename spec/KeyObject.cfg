SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANT EmitInit
PROPERTY ForLife
CHECK_DEADLOCK FALSE
