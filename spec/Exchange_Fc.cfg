SPECIFICATION Spec
CONSTANTS
  Kinds = {"tcp", "rtu", "rtutcp"}
  Depth = 3
  Flush = TRUE
  Ids = TRUE
  Unit = TRUE
  Fc = FALSE
  Again = TRUE
  Emit = FALSE
INVARIANTS OwnOnly Heard Export
CHECK_DEADLOCK FALSE
