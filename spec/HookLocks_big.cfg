SPECIFICATION Spec
CONSTANTS
  W = {1, 2, 3}
  Depth = 1
  Shared = TRUE
  Snapshot = TRUE
  Copies = TRUE
  Reentrant = TRUE
  Calls = {"req", "set", "get", "bcast", "bank", "hooks", "exec"}
  Nested = {"none", "set own", "set other", "get other", "bank", "hooks", "exec"}
INVARIANTS NoDeadlock AllFree
CHECK_DEADLOCK FALSE
