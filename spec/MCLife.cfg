SPECIFICATION Spec
CONSTANTS Callers = {1, 2}  WorkerRules = TRUE
INVARIANTS Once Over
PROPERTY Returns
CHECK_DEADLOCK FALSE
