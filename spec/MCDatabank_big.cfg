SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Emit = FALSE
INVARIANTS TypeOK Export
PROPERTIES Isolated Everywhere
CHECK_DEADLOCK FALSE
