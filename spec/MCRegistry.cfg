SPECIFICATION Exhaustive
CONSTANTS MaxVars = 2  MaxCons = 1  Depth = 0
CONSTRAINT Small
INVARIANT Inv
PROPERTIES FailedKeepsState KeepsOrder
CHECK_DEADLOCK FALSE
