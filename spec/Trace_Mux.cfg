INIT Init
NEXT Next
INVARIANT Conforms
CONSTANTS
  Steps <- TSteps
  Start <- TStart
  Apply <- TApply
  CcMod = 16
CHECK_DEADLOCK FALSE
