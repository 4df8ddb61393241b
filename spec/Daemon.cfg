SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANT EmitInit
PROPERTIES Restored Bounded
CHECK_DEADLOCK FALSE
