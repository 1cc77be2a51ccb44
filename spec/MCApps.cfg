SPECIFICATION Spec
CONSTANTS Family = {"maxcut", "partition", "stable", "cover", "clique"}
  MaxN = 4
INVARIANTS EncodingExact Duality CutSymmetric
CHECK_DEADLOCK FALSE
