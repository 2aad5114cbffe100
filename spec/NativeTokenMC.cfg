CONSTANTS MaxSteps = 3
          MaxTx = 1
          MaxDepth = 3
SPECIFICATION Spec
INVARIANTS NoNegative ReadOnly Nested DefaultKept Others
PROPERTIES FailKeeps
CHECK_DEADLOCK FALSE
