SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Home <- Pair
INVARIANT Apart
CHECK_DEADLOCK FALSE
