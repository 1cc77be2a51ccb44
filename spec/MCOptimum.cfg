SPECIFICATION Spec
CONSTANTS Cs = {0, 3}
  Ws = {0, 2, 3, 5}
  Rs = {1, 3, 5}
  Ubs = {0, 1, 2}
  Wide = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
