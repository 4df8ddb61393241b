SPECIFICATION Spec
INVARIANT Unique
CHECK_DEADLOCK FALSE
