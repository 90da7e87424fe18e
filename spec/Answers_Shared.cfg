SPECIFICATION Spec
CONSTANTS
  P = {1, 2, 3}
  Calls = 2
  Where = "shared"
  Gives = FALSE
  Dies = FALSE
INVARIANTS Own
PROPERTIES Done Carried
CHECK_DEADLOCK FALSE
