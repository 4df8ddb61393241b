SPECIFICATION Spec
INVARIANTS NeverShort ReadsWhole LockedAtRest
PROPERTY Done
CHECK_DEADLOCK FALSE
