INIT Init
NEXT Next
INVARIANTS Julian Times
CHECK_DEADLOCK FALSE
