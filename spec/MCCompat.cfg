SPECIFICATION Spec
INVARIANTS Gate Classes
PROPERTIES Decided
CHECK_DEADLOCK FALSE
