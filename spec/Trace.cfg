INIT Init
NEXT Next
INVARIANT Conforms
CONSTANTS
  Steps <- TSteps
  Start <- TStart
  Apply <- TApply
CHECK_DEADLOCK FALSE
