INIT Init
NEXT Next
INVARIANTS NeverStuck Nothing Strict
CONSTANTS
  MaxSection <- SmallMax
  Limit = 40
  MCItems = 3
  MCKinds = {"pat", "pmt", "sdt", "nit"}
CHECK_DEADLOCK FALSE
