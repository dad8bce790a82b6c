INIT Init
NEXT Next
CONSTANTS
  CcMod = 16
  Bodies <- MCBodies
  Caps = {2, 5, 9, 13}
  MaxIdle = 0
  MaxFaults = 1
INVARIANTS Safe Delivered Exact Bounded
CHECK_DEADLOCK FALSE
