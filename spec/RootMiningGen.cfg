SPECIFICATION GSpec
CONSTANTS MaxB = 14 Miners = {1, 2, 3} Guard = 9
INVARIANTS GD01Inv GW01Inv
CHECK_DEADLOCK FALSE
