INIT Init
NEXT Next
INVARIANTS Exact Judged Bytes
CONSTANTS
  MCKinds = {"tdt", "tot"}
  MCItems = 0
CHECK_DEADLOCK FALSE
