SPECIFICATION Spec
CONSTANTS Inputs = {1, 2, 3}
  Leak = "none"
  MaxCalls = 6
INVARIANTS Repeatable NothingChanges
CHECK_DEADLOCK FALSE
