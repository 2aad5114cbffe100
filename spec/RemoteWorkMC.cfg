SPECIFICATION MSpec
CONSTANTS Addrs = {"a", "b"} Default = "a" None = None MaxStale = 7 Cap = 2 MaxId = 3 MaxTip = 12
INVARIANTS Latest NotWithdrawn Strict
PROPERTY AcceptCurrent
CHECK_DEADLOCK FALSE
