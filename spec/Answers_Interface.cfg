SPECIFICATION Spec
CONSTANTS
  P = {1, 2, 3}
  Calls = 2
  Where = "interface"
  Gives = TRUE
  Dies = FALSE
INVARIANTS Own
PROPERTIES Done Carried
CHECK_DEADLOCK FALSE
