INIT Init
NEXT Next
INVARIANTS Exact Judged Bytes
CONSTANTS
  MCKinds = {"pmt"}
  MCItems = 4
CHECK_DEADLOCK FALSE
