SPECIFICATION Spec
CONSTANTS
  Kinds = {"tcp", "rtu", "rtutcp"}
  Depth = 3
  Flush = TRUE
  Ids = TRUE
  Unit = TRUE
  Fc = TRUE
  Again = TRUE
  Emit = TRUE
INVARIANTS OwnOnly Heard Export
CHECK_DEADLOCK FALSE
