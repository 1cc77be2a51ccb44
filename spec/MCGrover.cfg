SPECIFICATION Spec
CONSTANTS N = 2
  Vals = {0, 1, 2, 3}
INVARIANTS Honest BestSeen Bounded
PROPERTIES Monotone Terminates
CHECK_DEADLOCK FALSE
