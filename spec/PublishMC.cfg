CONSTANTS MaxB = 4
 MaxFail = 2
SPECIFICATION MSpec
INVARIANTS Published Ordered Announced HeadIn HeadHighest Agrees Repeats RepeatsRelay
CHECK_DEADLOCK FALSE
