INIT Init
NEXT Next
INVARIANTS TypeOK Written
PROPERTIES OneList Careful
CONSTANTS
  MaxLen = 2
  MaxOps = 5
CHECK_DEADLOCK FALSE
