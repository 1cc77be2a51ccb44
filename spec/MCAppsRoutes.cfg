SPECIFICATION Spec
CONSTANTS Family = {"tsp", "vrp"}
  MaxN = 4
INVARIANTS EncodingExact RoutesCover
CHECK_DEADLOCK FALSE
