SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxIdle = 2
  MaxLives = 3
  Frees = TRUE
  Reuses = TRUE
  Apart = TRUE
  Looks = FALSE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
