SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxIdle = 2
  MaxLives = 3
  Frees = TRUE
  Reuses = FALSE
  Apart = TRUE
  Looks = TRUE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
