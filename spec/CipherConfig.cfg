SPECIFICATION Spec
INVARIANTS Readable Emit
CHECK_DEADLOCK FALSE
