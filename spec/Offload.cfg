SPECIFICATION Spec
INVARIANT Right
PROPERTY Returns
CHECK_DEADLOCK FALSE
