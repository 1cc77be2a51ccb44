SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANTS SlackRel BinaryRel PenaltyRel QuboRel
CHECK_DEADLOCK FALSE
