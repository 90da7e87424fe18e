SPECIFICATION Spec
CONSTANTS
  P = {1, 2, 3}
  Calls = 2
  Where = "command"
  Gives = TRUE
  Dies = TRUE
INVARIANTS Own
PROPERTIES Done Carried
CHECK_DEADLOCK FALSE
