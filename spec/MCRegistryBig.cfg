SPECIFICATION Exhaustive
CONSTANTS MaxVars = 3  MaxCons = 2  Depth = 0
CONSTRAINT Small
INVARIANT Inv
PROPERTIES FailedKeepsState KeepsOrder
CHECK_DEADLOCK FALSE
