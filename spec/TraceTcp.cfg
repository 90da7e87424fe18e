SPECIFICATION Spec
INVARIANTS Inv Report
CHECK_DEADLOCK FALSE
