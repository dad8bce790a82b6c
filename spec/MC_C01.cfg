INIT Init
NEXT Next
CONSTANTS
  CcMod = 16
  Bodies <- MCBodies
  Caps = {1, 2, 3, 5, 7, 9, 10, 11, 13, 16, 20}
  MaxIdle = 1
  MaxFaults = 0
INVARIANTS Safe Delivered Exact Bounded
CHECK_DEADLOCK FALSE
