SPECIFICATION GSpec
CONSTANTS MaxB = 12 Miners = {1, 2, 3}
INVARIANTS GD01Inv GW01Inv
CHECK_DEADLOCK FALSE
