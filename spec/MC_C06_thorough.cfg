INIT Init
NEXT Next
INVARIANTS Exact Judged Bytes
CONSTANTS
  MCKinds = {"pat"}
  MCItems = 5
CHECK_DEADLOCK FALSE
