SPECIFICATION CSpec
CONSTANTS MaxM = 1 MaxR = 3 MaxD = 2 MaxPer = 1 MaxList = 1 Atomic = TRUE
CONSTANT Shards <- TwoShards
CONSTANT InitH <- StartHeights
INVARIANTS F03Inv V01Inv OnDisk Distribution Agree BestOnDisk
PROPERTY NothingLost
CHECK_DEADLOCK FALSE
