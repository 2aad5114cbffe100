SPECIFICATION GSpec
CONSTANTS MaxQ = 8
CHECK_DEADLOCK FALSE
