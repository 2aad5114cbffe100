SPECIFICATION Spec
CONSTANTS Acc = {1, 2, 3} Tok = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19} Slot = {1, 2} Threshold = 16 MaxLen = 45 MaxV = 3
INVARIANT NoNegative
CHECK_DEADLOCK FALSE
