SPECIFICATION Spec
CONSTANTS
  Kinds = {"tcp", "rtu", "rtutcp"}
  Depth = 3
  Flush = FALSE
  Ids = TRUE
  Unit = TRUE
  Fc = TRUE
  Again = TRUE
  Emit = FALSE
INVARIANTS OwnOnly Heard Export
CHECK_DEADLOCK FALSE
