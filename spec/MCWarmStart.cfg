SPECIFICATION Spec
CONSTANTS Runs = 2
  W = 3
INVARIANTS Total Order Best Clip
CHECK_DEADLOCK FALSE
