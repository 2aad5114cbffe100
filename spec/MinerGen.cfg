SPECIFICATION GSpec
CONSTANTS Waiting = FALSE MaxTip = 9 MaxCalls = 12 MaxFail = 2 MaxFlip = 3 MaxOps = 28
CHECK_DEADLOCK FALSE
