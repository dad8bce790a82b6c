INIT Init
NEXT Next
INVARIANTS TypeOK Written
PROPERTIES OneList Careful
CONSTANTS
  MaxLen = 3
  MaxOps = 6
CHECK_DEADLOCK FALSE
