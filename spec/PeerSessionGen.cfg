CONSTANTS
  Peers = {1, 2, 3}
  Branches = {1, 2}
  MaxOps = 60
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
