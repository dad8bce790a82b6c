INIT Init
NEXT Next
INVARIANTS Good Noticed
CHECK_DEADLOCK FALSE
