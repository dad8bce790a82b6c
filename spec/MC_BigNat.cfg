INIT Init
NEXT Next
CONSTANTS
  Base = 4
  Top = 70
INVARIANT Arith
CHECK_DEADLOCK FALSE
