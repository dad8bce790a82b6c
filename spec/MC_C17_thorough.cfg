INIT Init
NEXT Next
INVARIANTS Partition Through
PROPERTY Monotone
CONSTANTS
  Alphabet = {0, 1, 2, 3, 14, 64, 82, 131, 255}
  MaxLen = 6
CHECK_DEADLOCK FALSE
