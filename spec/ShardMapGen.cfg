SPECIFICATION GSpec
CONSTANTS MaxChains = 3 MaxExp = 3 MaxKey = 20 MaxQ = 40
CHECK_DEADLOCK FALSE
