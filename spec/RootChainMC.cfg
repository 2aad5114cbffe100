SPECIFICATION Spec
CONSTANTS MaxM = 2 MaxR = 2 MaxD = 2 MaxPer = 1 MaxList = 2
CONSTANT Shards <- TwoShards
CONSTANT InitH <- StartHeights
INVARIANTS F03Inv V01Inv
PROPERTIES HeadMoves
CHECK_DEADLOCK FALSE
