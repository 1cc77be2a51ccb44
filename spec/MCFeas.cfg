SPECIFICATION Spec
INVARIANTS Exact Scaled Split InDomain
CHECK_DEADLOCK FALSE
