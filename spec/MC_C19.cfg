INIT Init
NEXT Next
INVARIANTS NotStuck Legal Strict OneTruncation
CONSTANTS
  MaxChars = 4
  Limits = {5, 6, 8, 9}
CHECK_DEADLOCK FALSE
