INIT Init
NEXT Next
INVARIANTS Exact Judged Bytes
CONSTANTS
  MCKinds = {"nit"}
  MCItems = 3
CHECK_DEADLOCK FALSE
