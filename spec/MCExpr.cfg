SPECIFICATION Spec
INVARIANTS Denotes Symmetric Derivative Upper
CHECK_DEADLOCK FALSE
