INIT Init
NEXT Next
INVARIANTS Inverts Loses Distinct Survives NoOther Utf8Fine
CHECK_DEADLOCK FALSE
