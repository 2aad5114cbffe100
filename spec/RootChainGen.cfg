SPECIFICATION GSpec
CONSTANTS MaxM = 7 MaxR = 6 MaxD = 3 MaxPer = 2 MaxList = 2
CONSTANT Shards <- ThreeShards
CONSTANT InitH <- StartHeights
INVARIANTS F03Inv V01Inv
CHECK_DEADLOCK FALSE
