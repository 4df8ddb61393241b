SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANTS EmitInit Ends
PROPERTIES OneWay
CHECK_DEADLOCK FALSE
