SPECIFICATION Spec
CONSTANTS Callers = {1, 2}  WorkerRules = TRUE
INVARIANT Report
CHECK_DEADLOCK FALSE
