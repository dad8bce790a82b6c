INIT Init
NEXT Next
INVARIANTS Exact Judged Bytes
CONSTANTS
  MCKinds = {"nit"}
  MCItems = 4
CHECK_DEADLOCK FALSE
