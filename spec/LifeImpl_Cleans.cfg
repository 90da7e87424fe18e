SPECIFICATION Spec
CONSTANTS MaxThreads = 4  SafeStop = TRUE  SafeMake = TRUE  SafeStart = TRUE  Cleans = FALSE
INVARIANTS StopFine Stopped OneThread StartFine NotLost Cleaned
PROPERTIES Returns Serves
CHECK_DEADLOCK FALSE
