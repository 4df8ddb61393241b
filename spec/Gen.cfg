SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANTS NeverPast EmitInit
CHECK_DEADLOCK FALSE
