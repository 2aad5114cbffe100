CONSTANTS
  Peers = {1, 2}
  Branches = {5}
  MaxTop = 2
  MaxTasks = 1000
SPECIFICATION MCSpec
INVARIANT Answers
INVARIANT Ancestors
PROPERTY NeverLighter
PROPERTY NoEquivocation
PROPERTY Isolated
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
