SPECIFICATION Spec
CONSTANTS MinVars = 1
  N = 3
INVARIANTS Sound Best
CHECK_DEADLOCK FALSE
