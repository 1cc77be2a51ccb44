SPECIFICATION Spec
INVARIANTS WeightsCover CoverMeaning
CHECK_DEADLOCK FALSE
