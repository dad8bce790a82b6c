INIT Init
NEXT Next
INVARIANT ReadBack
CHECK_DEADLOCK FALSE
