SPECIFICATION Spec
CONSTANTS
  X = 3
  F = 3
INVARIANT Truthful
CHECK_DEADLOCK FALSE
