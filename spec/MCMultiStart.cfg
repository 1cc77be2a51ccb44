SPECIFICATION Spec
CONSTANTS Trials = 5
  Pts = {0, 1, 2, 3, 4, 5, 6}
  Sense = 1
INVARIANTS BestOfAll
PROPERTIES Kept
CHECK_DEADLOCK FALSE
