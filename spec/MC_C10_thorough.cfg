INIT Init
NEXT Next
INVARIANTS Exact Judged Bytes
CONSTANTS
  MCKinds = {"eit"}
  MCItems = 5
CHECK_DEADLOCK FALSE
