INIT Init
NEXT Next
INVARIANTS RoundTrip Lengths
CHECK_DEADLOCK FALSE
