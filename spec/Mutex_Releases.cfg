SPECIFICATION Spec
CONSTANTS
  W = {1, 2, 3}
  Calls = 2
  Locked = TRUE
  Releases = FALSE
INVARIANTS OwnReply
PROPERTY Finish
CHECK_DEADLOCK FALSE
