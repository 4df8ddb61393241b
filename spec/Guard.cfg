SPECIFICATION Spec
INVARIANT Mutex
INVARIANT Coherent
INVARIANT Idle
PROPERTY Refines
PROPERTY Progress
CHECK_DEADLOCK FALSE
