INIT Init
NEXT Next
CONSTANTS
  CcMod = 16
  Pays = {4, 5, 6, 9}
  Sizes = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 40}
  MaxSec = 2
INVARIANTS WellFormed Received Early
CHECK_DEADLOCK FALSE
