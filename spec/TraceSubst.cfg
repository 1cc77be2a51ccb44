SPECIFICATION JSpec
CONSTANTS F = 2
  Start <- XStart
  Advance <- XAdvance
  Verdict <- XVerdict
INVARIANT JOk
CHECK_DEADLOCK FALSE
