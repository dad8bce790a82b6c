SPECIFICATION Spec
CONSTANTS
  Size = 3
  SyncB = 71
  MaxLen = 8
  MaxFaults = 2
  MaxIntr = 1
  MaxReturns = 4
INVARIANT Refines
PROPERTIES Returns Delivers
CHECK_DEADLOCK FALSE
