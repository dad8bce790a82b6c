INIT Init
NEXT Next
CONSTANTS
  Types = {0, 1, 2, 3, 4, 5, 6, 7, 15, 16, 17, 27, 36, 129}
  Tags = {10, 86, 89, 106, 111, 122, 129}
  MaxLen = 4
INVARIANTS Right Neutral
CHECK_DEADLOCK FALSE
