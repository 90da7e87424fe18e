SPECIFICATION Spec
CONSTANTS
  Depth = 5
VIEW SimView
INVARIANTS Refused Determined Wrong HooksOnly Export
CHECK_DEADLOCK FALSE
