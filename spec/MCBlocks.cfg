SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  NameSet = {"a", "b"}
  MaxA = 3
  MaxN = 2
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
