SPECIFICATION Spec
CONSTANTS Acc = {1} Tok = {1, 2} Slot = {1} Threshold = 1 MaxOps = 5 MaxV = 1
INVARIANT S01Inv
CHECK_DEADLOCK FALSE
