SPECIFICATION Spec
CONSTANTS Three = TRUE
  Vary = 1
  MaxIter = 3
  TwoBins = FALSE
INVARIANTS Binary ConsensusFeasible RhoPositive MeritExact Loop
PROPERTIES Ends
CHECK_DEADLOCK FALSE
