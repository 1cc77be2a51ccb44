SPECIFICATION Spec
CONSTANT F = 2
INVARIANTS ObjectiveKept FeasibilityKept
CHECK_DEADLOCK FALSE
