SPECIFICATION GSpec
CONSTANTS MaxM = 16 MaxR = 5 Shards = {1, 2, 3}
INVARIANTS X01Inv L01Inv
CHECK_DEADLOCK FALSE
