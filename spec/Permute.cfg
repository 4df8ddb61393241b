SPECIFICATION Spec
INVARIANTS OneToOne Inverse Square
CHECK_DEADLOCK FALSE
