INIT Init
NEXT Next
INVARIANTS Exact Judged Bytes
CONSTANTS
  MCKinds = {"sdt"}
  MCItems = 3
CHECK_DEADLOCK FALSE
