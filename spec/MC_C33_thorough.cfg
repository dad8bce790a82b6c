INIT Init
NEXT Next
CONSTANTS
  CcMod = 16
  Pays = {4, 5, 6, 9, 16}
  Adds = {0, 1, 2, 7, 30}
  MaxSec = 4
  Words = {1, 2, 3, 4}
INVARIANTS InOrder Complete Gapless
CHECK_DEADLOCK FALSE
