SPECIFICATION Spec
CONSTANTS
  PSize = 3
  MaxItems = 4
  Bufs = {0, 1, 2, 3, 4, 7}
INVARIANTS Allowed Prefix Complete
PROPERTIES Delivers Grows
CHECK_DEADLOCK FALSE
