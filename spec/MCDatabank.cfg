SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
INVARIANTS TypeOK Export
PROPERTIES Isolated Everywhere
CHECK_DEADLOCK FALSE
