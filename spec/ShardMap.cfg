SPECIFICATION Spec
CONSTANTS MaxChains = 3 MaxExp = 3 MaxKey = 20
INVARIANT A01Inv
CHECK_DEADLOCK FALSE
