SPECIFICATION Spec
INVARIANTS Inv Accept Report
CHECK_DEADLOCK FALSE
