SPECIFICATION Spec
CONSTANTS Waiting = FALSE MaxTip = 2 MaxCalls = 3 MaxFail = 1 MaxFlip = 1
INVARIANT TypeOK
PROPERTIES Returns Works
CHECK_DEADLOCK FALSE
