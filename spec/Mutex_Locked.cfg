SPECIFICATION Spec
CONSTANTS
  W = {1, 2, 3}
  Calls = 2
  Locked = FALSE
  Releases = TRUE
INVARIANTS OwnReply
PROPERTY Finish
CHECK_DEADLOCK FALSE
