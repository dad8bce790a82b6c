INIT Init
NEXT Next
CONSTANTS
  CcMod = 16
  Pays = {5, 9, 17}
  Lens = {2, 9, 21}
  MaxSec = 2
  Keeps = {4, 9, 99}
  Adds = {0, 1, 14}
  MaxFaults = 2
INVARIANTS Arrives Undisturbed Taken
CHECK_DEADLOCK FALSE
