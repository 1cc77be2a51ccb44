SPECIFICATION Spec
CONSTANTS Family = {"exact", "packing", "knapsack", "numbers"}
  MaxN = 4
INVARIANTS EncodingExact 
CHECK_DEADLOCK FALSE
