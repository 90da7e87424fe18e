SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxIdle = 2
  MaxLives = 3
  Frees = FALSE
  Reuses = TRUE
  Apart = TRUE
  Looks = TRUE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
