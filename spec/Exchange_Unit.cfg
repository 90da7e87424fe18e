SPECIFICATION Spec
CONSTANTS
  Kinds = {"tcp", "rtu", "rtutcp"}
  Depth = 3
  Flush = TRUE
  Ids = TRUE
  Unit = FALSE
  Fc = TRUE
  Again = TRUE
  Emit = FALSE
INVARIANTS OwnOnly Heard Export
CHECK_DEADLOCK FALSE
