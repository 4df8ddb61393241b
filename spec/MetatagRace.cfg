SPECIFICATION Spec
INVARIANT OneObject
INVARIANT Separate
PROPERTY Stable
CHECK_DEADLOCK FALSE
CONSTANT Tasks = {1,2,3,4}
CONSTANT Names = {"m","n"}
