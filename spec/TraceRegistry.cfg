SPECIFICATION Spec
INVARIANTS Judge WF
CHECK_DEADLOCK FALSE
