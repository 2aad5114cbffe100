CONSTANTS MaxSteps = 7
          MaxTx = 3
          MaxDepth = 5
SPECIFICATION GSpec
INVARIANTS NoNegative ReadOnly DefaultKept
CHECK_DEADLOCK FALSE
