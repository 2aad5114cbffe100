SPECIFICATION CSpec
CONSTANTS MaxM = 7 MaxR = 4 MaxD = 3 MaxPer = 3
INVARIANTS F01Inv NotBelowConfirmed
CHECK_DEADLOCK FALSE
