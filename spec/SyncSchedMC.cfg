CONSTANTS
  Peers = {"a", "b", "c"}
  Prios = {1, 2, 3}
  MaxTasks = 5
SPECIFICATION MCSpec
INVARIANT NoneLeft
INVARIANT Once
PROPERTY BestFirst
PROPERTY AllRun
CHECK_DEADLOCK FALSE
