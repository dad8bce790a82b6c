INIT Init
NEXT Next
INVARIANTS RoundTrip Reserved
CHECK_DEADLOCK FALSE
