SPECIFICATION MSpec
CONSTANTS MaxM = 6 MaxR = 2 Shards = {1, 2}
INVARIANTS X01Inv L01Inv
CHECK_DEADLOCK FALSE
