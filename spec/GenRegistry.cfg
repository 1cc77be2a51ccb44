SPECIFICATION Generate
CONSTANTS MaxVars = 2  MaxCons = 1  Depth = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
