SPECIFICATION Spec
CONSTANT W = 4
INVARIANTS RawInv SampleInv Conserve BestFirst
CHECK_DEADLOCK FALSE
