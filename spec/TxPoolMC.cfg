SPECIFICATION MSpec
CONSTANTS
  MaxM = 3
  MaxR = 2
  MaxD = 2
  MaxPer = 2
  Accts = {1}
  Fund0 = 1200000
  Fund1 = 0
  MinPrice = 5
  Bump = 10
INVARIANTS F01Inv PoolOK
PROPERTIES Returns Leaves
CHECK_DEADLOCK FALSE
