SPECIFICATION Spec
CONSTANTS MaxM = 3 MaxR = 3 MaxD = 2 MaxPer = 2
INVARIANTS F01Inv NotBelowConfirmed
PROPERTIES HeadMoves RootMoves
CHECK_DEADLOCK FALSE
