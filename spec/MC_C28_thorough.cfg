INIT Init
NEXT Next
CONSTANTS
  CcMod = 16
  Pay = 7
  MaxOther = 2
INVARIANTS InOrder Complete Apart Exact
CHECK_DEADLOCK FALSE
