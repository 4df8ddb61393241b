SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
INVARIANTS EmitInit Drawn
PROPERTIES OneDirection OneOwner NoLateUpdate
CHECK_DEADLOCK FALSE
