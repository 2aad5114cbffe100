SPECIFICATION GSpec
CONSTANTS MaxM = 12 MaxR = 5 MaxD = 3 MaxPer = 4 MaxList = 2
CONSTANT Shards <- ThreeShards
CONSTANT InitH <- StartHeights
INVARIANTS F03Inv V01Inv
CHECK_DEADLOCK FALSE
