SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANT EmitInit
PROPERTIES OneWay Verdict
CHECK_DEADLOCK FALSE
