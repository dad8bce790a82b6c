SPECIFICATION Spec
CONSTANTS
  CcMod = 16
  Pay = 13
  Cuts = {1, 2, 3, 4, 8, 14, 15}
  MaxFaults = 2
INVARIANTS OnlySent Current OneVersion
PROPERTY Settles
CHECK_DEADLOCK FALSE
