CONSTANTS MaxB = 8
 MaxCall = 14
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
