SPECIFICATION Spec
CONSTANT Emit = TRUE
INVARIANTS TypeOK Frame ReadBack Export
CHECK_DEADLOCK FALSE
