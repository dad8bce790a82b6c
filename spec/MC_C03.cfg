INIT Init
NEXT Next
CONSTANTS
  CcMod = 16
  Alphabet = {0, 1, 2, 9, 21, 77, 240, 255}
  MaxLen = 4
  MaxPay = 3
INVARIANTS LoopTotal TextTotal EntriesTotal SectionTotal Bounded
CHECK_DEADLOCK FALSE
