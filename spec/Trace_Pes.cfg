INIT Init
NEXT Next
INVARIANT Conforms
CONSTANTS
  Steps <- TSteps
  Start <- TStart
  Apply <- TApply
  Base = 10000
CHECK_DEADLOCK FALSE
