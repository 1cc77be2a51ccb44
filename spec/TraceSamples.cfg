SPECIFICATION JSpec
CONSTANTS Start <- XStart
  Advance <- XAdvance
  Verdict <- XVerdict
INVARIANT JOk
CHECK_DEADLOCK FALSE
