INIT Init
NEXT Next
INVARIANT Accumulated
CONSTANT Depth = 4
CHECK_DEADLOCK FALSE
