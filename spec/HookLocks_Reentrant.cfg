SPECIFICATION Spec
CONSTANTS
  W = {1, 2}
  Depth = 2
  Shared = TRUE
  Snapshot = TRUE
  Copies = TRUE
  Reentrant = FALSE
  Calls = {"req", "set", "get", "bcast", "bank", "hooks", "exec"}
  Nested = {"none", "set own", "set other", "get own", "get other", "bank", "hooks", "exec"}
INVARIANTS NoDeadlock AllFree
CHECK_DEADLOCK FALSE
