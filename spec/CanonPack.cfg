SPECIFICATION Spec
INVARIANTS RoundTrip Whole EmitCase
CHECK_DEADLOCK FALSE
