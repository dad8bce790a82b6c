INIT Init
NEXT Next
INVARIANT Told
CHECK_DEADLOCK FALSE
