SPECIFICATION Spec
CONSTANTS Cs = {1, 4}
  Ws = {0, 3, 5}
  Rs = {1, 3, 4}
  Ubs = {1, 2}
  Wide = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
