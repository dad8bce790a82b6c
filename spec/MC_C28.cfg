INIT Init
NEXT Next
CONSTANTS
  CcMod = 16
  Pay = 11
  MaxOther = 1
INVARIANTS InOrder Complete Apart Exact
CHECK_DEADLOCK FALSE
