INIT Init
NEXT Next
INVARIANTS Exact Judged Bytes
CONSTANTS
  MCKinds = {"eit"}
  MCItems = 3
CHECK_DEADLOCK FALSE
