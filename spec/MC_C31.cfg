INIT Init
NEXT Next
INVARIANT OneValue
PROPERTY Exact
CONSTANT MaxOps = 3
CHECK_DEADLOCK FALSE
