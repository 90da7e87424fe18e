SPECIFICATION Spec
CONSTANTS MaxThreads = 4  SafeStop = TRUE  SafeMake = TRUE  SafeStart = FALSE  Cleans = TRUE
INVARIANTS StopFine Stopped OneThread StartFine NotLost Cleaned
PROPERTIES Returns Serves
CHECK_DEADLOCK FALSE
