CONSTANTS
  Peers = {"a", "b", "c", "d"}
  MaxOps = 24
SPECIFICATION GSpec
INVARIANT NoneLeft
CHECK_DEADLOCK FALSE
