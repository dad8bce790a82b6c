INIT Init
NEXT Next
INVARIANTS Exact Judged Bytes
CONSTANTS
  MCKinds = {"pmt"}
  MCItems = 3
CHECK_DEADLOCK FALSE
