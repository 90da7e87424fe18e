SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  NameSet = {"a", "b", "c"}
  MaxA = 4
  MaxN = 3
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
