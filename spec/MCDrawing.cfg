SPECIFICATION Spec
CONSTANTS N = 3
 By = "node"
 Ks = {1, 2}
INVARIANTS Shown Faithful
CHECK_DEADLOCK FALSE
