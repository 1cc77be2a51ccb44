SPECIFICATION Spec
INVARIANTS SameMeaning
INVARIANT HollowMeaning
CHECK_DEADLOCK FALSE
