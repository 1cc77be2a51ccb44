SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANTS SlackRel BinaryRel PenaltyRel QuboRel
CHECK_DEADLOCK FALSE
