SPECIFICATION Spec
CONSTANTS
  Size = 3
  SyncB = 71
  MaxLen = 6
  MaxFaults = 1
  MaxIntr = 1
  MaxReturns = 4
INVARIANT Refines
PROPERTIES Returns Delivers
CHECK_DEADLOCK FALSE
