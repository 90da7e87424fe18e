SPECIFICATION Spec
CONSTANT Bits = 2048
INVARIANTS One Two Three
CHECK_DEADLOCK FALSE
