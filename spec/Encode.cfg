SPECIFICATION Spec
INVARIANTS RoundTrip EmitCase
CHECK_DEADLOCK FALSE
