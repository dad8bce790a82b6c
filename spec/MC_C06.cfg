INIT Init
NEXT Next
INVARIANTS Exact Judged Bytes
CONSTANTS
  MCKinds = {"pat"}
  MCItems = 4
CHECK_DEADLOCK FALSE
