INIT Init
NEXT Next
CONSTANTS
  Base = 10
  P = 37
  Second = 5
INVARIANTS Unique Right Signed Pace
CHECK_DEADLOCK FALSE
