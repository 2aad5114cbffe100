SPECIFICATION CSpec
CONSTANTS MaxM = 3 MaxR = 2 MaxD = 2 MaxPer = 2 Atomic = TRUE Keep = TRUE
INVARIANTS OnDisk Confirmed MasterKnown Agree BackOK CanReturn
PROPERTIES NothingLost
CHECK_DEADLOCK FALSE
