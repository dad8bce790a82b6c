INIT Init
NEXT Next
INVARIANTS NotStuck Legal Strict OneTruncation
CONSTANTS
  MaxChars = 5
  Limits = {5, 6, 7, 8, 9, 10, 12}
CHECK_DEADLOCK FALSE
