SPECIFICATION GSpec
CONSTANTS Addrs = {"a", "b", "c"} Default = "a" None = None MaxStale = 7 Cap = 100 MaxOps = 60
CHECK_DEADLOCK FALSE
