CONSTANTS
  Root = TRUE
  Samples = 500
  Stale = 22500
  Headers = 500
  Batch = 3
  Claims <- GenClaims
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
