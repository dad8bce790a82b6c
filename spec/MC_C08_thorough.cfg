INIT Init
NEXT Next
INVARIANTS Exact Judged Bytes
CONSTANTS
  MCKinds = {"sdt"}
  MCItems = 4
CHECK_DEADLOCK FALSE
