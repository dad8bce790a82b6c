INIT Init
NEXT Next
INVARIANTS WellFormed ReadBack
PROPERTY Frame
CONSTANTS
  Size = 6
  MaxOps = 3
CHECK_DEADLOCK FALSE
