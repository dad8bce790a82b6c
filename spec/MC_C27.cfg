INIT Init
NEXT Next
INVARIANTS Unique OneOwner There Back
CHECK_DEADLOCK FALSE
