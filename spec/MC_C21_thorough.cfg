INIT Init
NEXT Next
CONSTANT MaxOps = 4
INVARIANT Independent
CHECK_DEADLOCK FALSE
