SPECIFICATION CaseSpec
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
