SPECIFICATION Spec
INVARIANT Accepted
INVARIANT Mutex
CHECK_DEADLOCK FALSE
