SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANTS Types EmitInit
PROPERTIES Keeps RefusedQuietly
CHECK_DEADLOCK FALSE
