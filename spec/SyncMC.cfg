CONSTANTS
  Root = TRUE
  Samples = 3
  Stale = 5
  Headers = 3
  Batch = 2
  N = 8
SPECIFICATION MCSpec
INVARIANT Linked
INVARIANT Complete
INVARIANT SkipsQuietly
INVARIANT Noticed
INVARIANT Harmless
PROPERTY Ends
CHECK_DEADLOCK FALSE
