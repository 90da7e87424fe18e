SPECIFICATION Spec
INVARIANTS Report
CHECK_DEADLOCK FALSE
