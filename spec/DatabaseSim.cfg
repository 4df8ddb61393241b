SPECIFICATION SimSpec
INVARIANT TypeOK
INVARIANT Report
CHECK_DEADLOCK FALSE
