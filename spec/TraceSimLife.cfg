SPECIFICATION TSpec
CONSTANTS
  N = 3
  MaxIdle = 9
  MaxLives = 99
  Frees = TRUE
  Reuses = TRUE
  Apart = TRUE
  Looks = TRUE
CHECK_DEADLOCK FALSE
