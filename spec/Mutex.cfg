SPECIFICATION Spec
CONSTANTS
  W = {1, 2, 3}
  Calls = 2
  Locked = TRUE
  Releases = TRUE
INVARIANTS OwnReply OneAtATime
PROPERTY Finish
CHECK_DEADLOCK FALSE
