SPECIFICATION Spec
CONSTANTS MaxThreads = 4  SafeStop = FALSE  SafeMake = TRUE  SafeStart = TRUE  Cleans = TRUE
INVARIANTS StopFine Stopped OneThread StartFine NotLost Cleaned
PROPERTIES Returns Serves
CHECK_DEADLOCK FALSE
