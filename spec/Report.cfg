SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANTS EmitInit Kept
PROPERTY Newest
CHECK_DEADLOCK FALSE
