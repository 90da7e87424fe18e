SPECIFICATION Spec
CONSTANTS
  Depth = 4
VIEW SimView
INVARIANTS Refused Determined Wrong HooksOnly Export
CHECK_DEADLOCK FALSE
