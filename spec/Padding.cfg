SPECIFICATION Spec
INVARIANTS Least Inverse Formed OnlyFormed EmitCase
CHECK_DEADLOCK FALSE
