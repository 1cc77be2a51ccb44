SPECIFICATION Spec
CONSTANTS Num = 3
  Ws = {0, 1, 2, 3}
INVARIANTS Symmetric Unrepeated First Tight
CHECK_DEADLOCK FALSE
