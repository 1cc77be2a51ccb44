SPECIFICATION Spec
CONSTANTS N = 3
  MaxLines = 3
INVARIANTS Faithful Symmetric RoundingOK
CHECK_DEADLOCK FALSE
