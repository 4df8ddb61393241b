SPECIFICATION TSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
CONSTANT Depth = 0
