INIT Init
NEXT Next
CONSTANT MaxOps = 2
INVARIANT Independent
CHECK_DEADLOCK FALSE
