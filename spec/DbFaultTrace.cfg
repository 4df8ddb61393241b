SPECIFICATION TSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
CONSTANT Faults = 0
