SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANTS EmitInit Sound
CHECK_DEADLOCK FALSE
