SPECIFICATION QSpec
CONSTANTS MaxM = 2 MaxR = 2 MaxD = 1 MaxPer = 2
INVARIANTS LogsExact Numbered PagesExact DepositsOnce
CHECK_DEADLOCK FALSE
