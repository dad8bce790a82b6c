INIT Init
NEXT Next
CONSTANTS
  CcMod = 16
  Pays = {6, 17}
  Lens = {4, 12}
  MaxSec = 2
  Keeps = {4, 9, 99}
  Adds = {0, 1, 14}
  MaxFaults = 1
INVARIANTS Arrives Undisturbed Taken
CHECK_DEADLOCK FALSE
