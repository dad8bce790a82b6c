INIT Init
NEXT Next
INVARIANT Conforms
CONSTANTS
  Steps <- TSteps
  Start <- TStart
  Apply <- TApply
  Size = 188
  SyncB = 71
CHECK_DEADLOCK FALSE
