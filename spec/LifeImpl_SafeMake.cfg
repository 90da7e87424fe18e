SPECIFICATION Spec
CONSTANTS MaxThreads = 4  SafeStop = TRUE  SafeMake = FALSE  SafeStart = TRUE  Cleans = TRUE
INVARIANTS StopFine Stopped OneThread StartFine NotLost Cleaned
PROPERTIES Returns Serves
CHECK_DEADLOCK FALSE
