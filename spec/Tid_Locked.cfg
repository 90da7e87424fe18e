SPECIFICATION Spec
CONSTANTS
  W = {1, 2, 3}
  Total = 10
  M = 4
  Locked = FALSE
  Modulus = 4
INVARIANTS InRange Unique Periodic
CHECK_DEADLOCK FALSE
