SPECIFICATION MCSpec
CONSTANTS MaxB = 4 Miners = {1, 2} Win = 3 Dts = {1, 8}
INVARIANTS D01Inv W01Inv
CHECK_DEADLOCK FALSE
