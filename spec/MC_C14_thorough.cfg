INIT Init
NEXT Next
INVARIANT Accumulated
CONSTANT Depth = 6
CHECK_DEADLOCK FALSE
