SPECIFICATION GSpec
CONSTANTS
  MaxM = 7
  MaxR = 2
  MaxD = 2
  MaxPer = 4
  Accts = {1, 2}
  Fund0 = 3000000
  Fund1 = 1000
  MinPrice = 5
  Bump = 10
  MaxTx = 20
  MaxOps = 24
INVARIANTS F01Inv PoolOK
CHECK_DEADLOCK FALSE
