SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT EmitInit
ACTION_CONSTRAINT Emit
PROPERTY OneTag
PROPERTY DiskOnlyBySave
CHECK_DEADLOCK FALSE
